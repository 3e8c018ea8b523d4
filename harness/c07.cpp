// C07: CCH point queries: distances, paths, used end points; several metrics and orders per graph
#include "cchutil.h"
using namespace RoutingKit; using namespace gen; using namespace vh;
// shortcuts nested as deeply as the path is long, read on a small stack
static void deep(Case&c){
	Rng&r=c.rng; std::vector<unsigned> order; std::pair<unsigned,unsigned> e; Graph g=long_chain(r,r.in(30000,40000),order,e); c.desc=g.show()+" contracted along the chain";
	CustomizableContractionHierarchy cch(order,g.tail,g.head); CustomizableContractionHierarchyMetric m(cch,g.weight); m.customize(); Adj adj(g); Ends S{{e.first,0}},T{{e.second,0}}; uint64_t b=best_to(dists(g,adj,S),T);
	with_stack(1<<20,[&]{ CustomizableContractionHierarchyQuery q(m); q.add_source(e.first).add_target(e.second).run(); check_paths(c,g,q,S,T,b,"deeply nested shortcuts"); });
	c.count("deeply nested hierarchies"); c.nontrivial(g.hash());
}
void vh_case(Case&c){
	Rng&r=c.rng; if(c.is_rel() && c.idx%2001==1000){ deep(c); return; }
	 Opt o; o.size_class = c.large(999) ? 3 : c.idx%40==0 ? 2 : (c.idx%3==0 ? 0 : 1); o.allow_inf=o.allow_huge=o.allow_dense=true;
	Graph g=graph(r,o); c.desc=g.show(); std::string base=c.desc;
	auto cch=build_cch(c,g);
	VH_EQ(cch.node_count(), g.n, "node count"); VH_EQ(cch.input_arc_count(), g.m(), "input arc count");
	std::string d0=c.desc; bool nt=false;
	unsigned metrics=r.in(1,3);
	for(unsigned k=0;k<metrics;++k){
		if(k){ new_weights(r,g); }
		c.desc=d0+fmt(" metric %u weights=",k)+show(g.weight,40);
		Ref R(g); uint64_t om = r.chance(1,12) ? INF-1 : offset_limit(g);
		CustomizableContractionHierarchyMetric m = r.chance(1,2) ? CustomizableContractionHierarchyMetric(cch,g.weight) : CustomizableContractionHierarchyMetric(cch,g.weight.data());
		m.customize();
		CustomizableContractionHierarchyQuery q(m);
		auto one=[&](const Ends&S, const Ends&T){
			q.reset(); if(ref_point_query(c,R,q,S,T,"query")) nt=true;
			check_paths(c,g,q,S,T,best_to(R.from(S),T),"query"); c.count("queries");
		};
		if(g.n<=12) { for(unsigned s=0;s<g.n;++s){ auto d=dists(g,R.adj,s); for(unsigned t=0;t<g.n;++t){
			q.reset(); q.add_source(s).add_target(t).run(); VH_REQUIRE(q.get_distance()==clampd(d[t]), "%u->%u: %u instead of %u", s,t,q.get_distance(),clampd(d[t]));
			check_paths(c,g,q,{{s,0}},{{t,0}},d[t],"all pairs"); if(d[t]>0&&d[t]<INF) nt=true; c.count("queries"); } } }
		else for(unsigned i=0;i<12;++i) one({{(unsigned)r.below(g.n),0}},{{(unsigned)r.below(g.n),0}});
		for(unsigned i=0;i<6;++i){ one(random_ends(r,g,6,om),random_ends(r,g,6,om)); c.count("multi source/target queries"); }
	}
	if(nt) c.nontrivial(g.hash());
	if(g.m()>8) c.sample(c.desc);
}
