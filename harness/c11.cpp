// C11: CH derived by perfect witness search
#include "cchutil.h"
using namespace RoutingKit; using namespace gen; using namespace vh;
void vh_case(Case&c){
	Rng&r=c.rng; Opt o; o.size_class = c.large(749) ? 3 : c.idx%40==0 ? 2 : (c.idx%3==0 ? 0 : 1); o.allow_inf=o.allow_huge=o.allow_dense=true;
	Graph g=graph(r,o); c.desc=g.show();
	auto cch=build_cch(c,g); std::string d0=c.desc; bool nt=false;
	unsigned rounds=r.in(1,2);
	CustomizableContractionHierarchyMetric m(cch,g.weight);
	for(unsigned k=0;k<rounds;++k){
		if(k){ new_weights(r,g); m.reset(g.weight); }
		c.desc=d0+fmt(" metric %u weights=",k)+show(g.weight,40);
		if(r.chance(1,2)) m.customize();
		auto ch=m.build_contraction_hierarchy_using_perfect_witness_search();
		check_contraction_hierarchy_for_errors(ch);
		VH_EQ(ch.node_count(), g.n, "node count");
		Ref R(g); uint64_t om=offset_limit(g);
		// perfect: every arc that was kept is a shortest path between its end nodes (witnesses can be lost if always infinite arcs were filtered)
		if(d0.find("unfiltered")!=std::string::npos) for(unsigned i=0;i<(g.n<=40?g.n:8u);++i){
			unsigned x = g.n<=40 ? i : r.below(g.n), v=ch.order[x]; auto to=R.from({{v,0}}), from=R.to({{v,0}});
			for(unsigned a=ch.forward.first_out[x];a<ch.forward.first_out[x+1];++a){ VH_REQUIRE(ch.forward.weight[a]==clampd(to[ch.order[ch.forward.head[a]]]),"forward arc from %u to %u has weight %u, the distance is %u",v,ch.order[ch.forward.head[a]],ch.forward.weight[a],clampd(to[ch.order[ch.forward.head[a]]])); c.count("arcs that are shortest"); }
			for(unsigned a=ch.backward.first_out[x];a<ch.backward.first_out[x+1];++a){ VH_REQUIRE(ch.backward.weight[a]==clampd(from[ch.order[ch.backward.head[a]]]),"backward arc from %u to %u has weight %u, the distance is %u",ch.order[ch.backward.head[a]],v,ch.backward.weight[a],clampd(from[ch.order[ch.backward.head[a]]])); c.count("arcs that are shortest"); }
		}
		ContractionHierarchyQuery q(ch);
		unsigned nq = g.n<=9 ? g.n*g.n : 16;
		for(unsigned i=0;i<nq;++i){
			Ends S,T; if(g.n<=9){ S={{i/g.n,0}}; T={{i%g.n,0}}; } else { S=random_ends(r,g,r.chance(1,4)?4:1,r.chance(1,2)?0:om); T=random_ends(r,g,r.chance(1,4)?4:1,0); }
			q.reset(); if(ref_point_query(c,R,q,S,T,"perfect CH")) nt=true;
			check_paths(c,g,q,S,T,best_to(R.from(S),T),"perfect CH"); c.count("queries");
		}
		q.reset(); auto pins=random_pins(r,g); bool tt=r.chance(1,2); if(tt) q.pin_targets(pins); else q.pin_sources(pins);
		for(unsigned i=0;i<2;++i){ if(i){ if(tt) q.reset_source(); else q.reset_target(); } ref_pinned_run(c,R,q,tt,pins,random_ends(r,g,3,om),"perfect CH pinned"); }
		// the metric can be customized again and used for CCH queries
		m.customize(); CustomizableContractionHierarchyQuery cq(m);
		for(unsigned i=0;i<3;++i){ auto S=random_ends(r,g,2,om),T=random_ends(r,g,2,om); cq.reset(); ref_point_query(c,R,cq,S,T,"CCH query after re-customization"); }
	}
	if(nt) c.nontrivial(g.hash());
	if(g.m()>8) c.sample(c.desc);
}
