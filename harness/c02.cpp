// C02: CH paths
#include "chutil.h"
using namespace RoutingKit; using namespace gen; using namespace vh;
// shortcuts nested as deeply as the path is long, read on a small stack
static void deep(Case&c){
	Rng&r=c.rng; std::vector<unsigned> order; std::pair<unsigned,unsigned> e; Graph g=long_chain(r,r.in(60000,120000),order,e); c.desc=g.show()+" contracted along the chain";
	auto ch=ContractionHierarchy::build_given_order(order,g.tail,g.head,g.weight); Adj adj(g); Ends S{{e.first,0}},T{{e.second,0}}; uint64_t b=best_to(dists(g,adj,S),T);
	with_stack(1<<20,[&]{ ContractionHierarchyQuery q(ch); q.add_source(e.first).add_target(e.second).run(); check_paths(c,g,q,S,T,b,"deeply nested shortcuts"); });
	c.count("deeply nested hierarchies"); c.nontrivial(g.hash());
}
void vh_case(Case&c){
	Rng&r=c.rng; if(c.is_rel() && c.idx%2001==1000){ deep(c); return; }
	 Opt o; o.size_class = c.large(499) ? 3 : c.idx%30==0 ? 2 : (c.idx%3==0 ? 0 : 1); o.allow_inf=o.allow_huge=true;
	Graph g=graph(r,o); c.desc=g.show(); Adj adj(g);
	auto ch=build_ch(c,g);
	ContractionHierarchyQuery q(ch); bool nt=false;
	auto ask=[&](const Ends&S, const Ends&T, const std::vector<uint64_t>&d){
		q.reset();
		size_t i=0,j=0;
		while(i<S.size()||j<T.size()){ if(j==T.size()||(i<S.size()&&r.chance(1,2))){ q.add_source(S[i].first,S[i].second); ++i; } else { q.add_target(T[j].first,T[j].second); ++j; } }
		q.run();
		uint64_t b=best_to(d,T); if(b<INF64&&b>0) nt=true;
		check_paths(c,g,q,S,T,b,"CH query");
	};
	if(g.n<=12){ for(unsigned s=0;s<g.n;++s){ auto d=dists(g,adj,s); for(unsigned t=0;t<g.n;++t) ask({{s,0}},{{t,0}},d); } }
	else for(unsigned i=0;i<12;++i){ unsigned s=r.below(g.n); auto d=dists(g,adj,s); for(unsigned k=0;k<20;++k) ask({{s,0}},{{(unsigned)r.below(g.n),0}},d); }
	uint64_t om=offset_limit(g);
	for(unsigned k=0;k<12;++k){ auto S=random_ends(r,g,r.chance(1,4)?15:3,r.chance(1,3)?0:om), T=random_ends(r,g,r.chance(1,4)?15:3,r.chance(1,3)?0:om); ask(S,T,dists(g,adj,S)); }
	if(nt) c.nontrivial(g.hash());
	if(g.m()>8) c.sample(c.desc);
}
