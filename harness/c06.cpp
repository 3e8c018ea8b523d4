// C06: reuse histories of CH queries, CCH queries and Dijkstra objects, including flag wrap-around
#include "cchutil.h"
#include <routingkit/dijkstra.h>
using namespace RoutingKit; using namespace gen; using namespace vh;

static void check_dijkstra(Case&c, const Ref&R, const Csr&s, Dijkstra&d, const Ends&S, bool stop_early, const char*what){
	Rng&r=c.rng; std::set<unsigned>used; Ends S2;
	for(auto&x:S) if(used.insert(x.first).second){ d.add_source(x.first,x.second); S2.push_back(x); }
	auto want=R.from(S2); ScalarGetWeight w(s.weight);
	unsigned settled=0, limit = stop_early ? r.below(R.g.n+1) : ~0u;
	std::vector<char>done(R.g.n,0);
	while(!d.is_finished() && settled<limit){
		auto x=d.settle(w); ++settled;
		VH_REQUIRE(x.node<R.g.n && !done[x.node], "%s: node %u settled twice", what, x.node); done[x.node]=1;
		VH_REQUIRE(x.distance==want[x.node], "%s: node %u settled with %u instead of %llu", what, x.node, x.distance, (unsigned long long)want[x.node]);
	}
	for(unsigned x=0;x<R.g.n;++x){
		unsigned got=d.get_distance_to(x);
		if(d.is_finished()) VH_REQUIRE(got==clampd(want[x]), "%s: distance to %u is %u instead of %u", what, x, got, clampd(want[x]));
		else VH_REQUIRE(got==(done[x]?clampd(want[x]):INF), "%s: distance to %u is %u after an early stop", what, x, got);
		VH_REQUIRE(d.was_node_reached(x)==(done[x]!=0), "%s: was_node_reached(%u)", what, x);
		if(!done[x]) VH_REQUIRE(d.get_arc_path_to(x).empty() && d.get_node_path_to(x).empty(), "%s: path to unreached node %u", what, x);
	}
	c.count("dijkstra runs");
}

template<class Q> static void history(Case&c, const Ref&R, Q&q){
	Rng&r=c.rng; uint64_t om=offset_limit(R.g);
	unsigned len=r.in(3,c.idx%10==0?60:12);
	for(unsigned i=0;i<len;++i){
		if(i || r.chance(1,2)) q.reset();
		if(r.chance(1,8)){ q.reset(); c.count("double resets"); }
		episode(c,R,q,om); beat();
	}
	q.reset();
}
template<class Q, class Fresh> static void wrap(Case&c, const Ref&R, Q&q, const Fresh&fresh){
	// fill the flags with a wide search, then do many resets and query around every suspicious count
	Rng&r=c.rng; uint64_t om=offset_limit(R.g); (void)fresh;
	unsigned mode=r.below(3); // 0: full resets  1: reset_source with pinned targets  2: reset_target with pinned sources
	std::vector<unsigned>pins; c.desc+=fmt(" |wrap mode %u",mode);
	auto S=random_ends(r,R.g,r.chance(1,2)?1:3,om), T=random_ends(r,R.g,2,om);
	if(mode==0) ref_point_query(c,R,q,S,T,"before wrap");
	else { for(unsigned i=0,k=r.in(1,5);i<k;++i) pins.push_back(r.below(R.g.n)); if(mode==1) q.pin_targets(pins); else q.pin_sources(pins); ref_pinned_run(c,R,q,mode==1,pins,S,"before wrap"); }
	unsigned start=r.pick({65525u,65530u,131060u}), total=0; 
	while(total<start){ if(mode==0) q.reset(); else if(mode==1) q.reset_source(); else q.reset_target(); ++total; if(total%4096==0) beat(); }
	for(unsigned i=0;i<16;++i){
		// state is reset here, total resets so far
		auto S2=random_ends(r,R.g,r.chance(1,2)?1:3,om), T2=random_ends(r,R.g,r.chance(1,2)?1:3,om);
		std::string what=fmt("query after %u resets",total);
		if(mode==0){ ref_point_query(c,R,q,S2,T2,what.c_str()); if(r.chance(1,2)) check_paths(c,R.g,q,S2,T2,best_to(R.from(S2),T2),what.c_str()); q.reset(); }
		else { ref_pinned_run(c,R,q,mode==1,pins,S2,what.c_str()); if(mode==1) q.reset_source(); else q.reset_target(); }
		++total; c.count("queries around flag wrap");
	}
	q.reset();
}

void vh_case(Case&c){
	Rng&r=c.rng; unsigned kind=c.idx%3; bool do_wrap = (c.idx/3)%6==0;
	Opt o; o.size_class = c.large(7499) ? 3 : c.idx%41==0 ? 2 : ((c.idx/3)%2 ? 0 : 1); o.allow_inf=o.allow_huge=true;
	Graph g=graph(r,o); c.desc=g.show(); Ref R(g);
	if(kind==0){
		auto ch=build_ch(c,g); ContractionHierarchyQuery q(ch); history(c,R,q); if(do_wrap){ wrap(c,R,q,0); history(c,R,q); }
		c.count("CH histories");
	}else if(kind==1){
		auto cch=build_cch(c,g); CustomizableContractionHierarchyMetric m(cch,g.weight); m.customize();
		CustomizableContractionHierarchyQuery q(m); history(c,R,q); if(do_wrap && r.chance(1,3)){ wrap(c,R,q,0); history(c,R,q); }
		c.count("CCH histories");
	}else{
		auto s=csr(g); Graph g2=g; g2.tail=s.tail; g2.head=s.head; g2.weight=s.weight; Ref R2(g2); uint64_t om=offset_limit(g);
		Dijkstra d(s.first_out,s.tail,s.head);
		unsigned len=r.in(3,12);
		for(unsigned i=0;i<len;++i){ if(i) d.reset(); if(r.chance(1,6)){ d.add_source(r.below(g.n),r.below(om+1)); d.reset(); c.count("abandoned"); } check_dijkstra(c,R2,s,d,random_ends(r,g,r.chance(1,2)?1:4,om),r.chance(1,3),"reused dijkstra"); }
		if(do_wrap){
			d.reset(); check_dijkstra(c,R2,s,d,random_ends(r,g,1,om),false,"before wrap");
			unsigned start=r.pick({65525u,65530u,131060u}),total=0; while(total<start){ d.reset(); ++total; }
			for(unsigned i=0;i<16;++i){ check_dijkstra(c,R2,s,d,random_ends(r,g,r.chance(1,2)?1:4,om),r.chance(1,2),fmt("dijkstra after %u resets",total).c_str()); d.reset(); ++total; c.count("queries around flag wrap"); }
		}
		c.count("dijkstra histories");
	}
	if(g.m()>3) c.nontrivial(g.hash()+kind);
	if(g.m()>8) c.sample(c.desc);
}
