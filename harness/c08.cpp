// C08: CCH pinned queries
#include "cchutil.h"
using namespace RoutingKit; using namespace gen; using namespace vh;
void vh_case(Case&c){
	Rng&r=c.rng; Opt o; o.size_class = c.large(999) ? 3 : c.idx%30==0 ? 2 : (c.idx%3==0 ? 0 : 1); o.allow_inf=o.allow_huge=o.allow_dense=true;
	Graph g=graph(r,o); c.desc=g.show(); Ref R(g);
	auto cch=build_cch(c,g); CustomizableContractionHierarchyMetric m(cch,g.weight); m.customize();
	CustomizableContractionHierarchyQuery q(m); uint64_t om = r.chance(1,12) ? INF-1 : offset_limit(g); bool nt=false;
	unsigned rounds=r.in(1,4);
	for(unsigned k=0;k<rounds;++k){
		if(k || r.chance(1,2)) q.reset();
		auto pins=random_pins(r,g); bool tt=r.chance(1,2);
		if(pins.size()>g.n) c.count("pinned lists longer than the node count");
		std::string dsave=c.desc; c.desc+=std::string(tt?" pin targets ":" pin sources ")+show(pins,30);
		if(tt) q.pin_targets(pins); else q.pin_sources(pins);
		unsigned runs=r.in(1,5);
		for(unsigned i=0;i<runs;++i){
			if(i || r.chance(1,3)){ if(tt) q.reset_source(); else q.reset_target(); }
			auto S=random_ends(r,g,r.chance(1,3)?6:1,r.chance(1,2)?0:om);
			if(ref_pinned_run(c,R,q,tt,pins,S,fmt("run %u",i).c_str())) nt=true;
			if(r.chance(1,4)) // individual queries say the same
				for(unsigned j=0;j<3&&!pins.empty();++j){ unsigned p=r.pick(pins); CustomizableContractionHierarchyQuery q2(m); for(auto&x:S){ if(tt) q2.add_source(x.first,x.second); else q2.add_target(x.first,x.second); } if(tt) q2.add_target(p); else q2.add_source(p); q2.run(); VH_EQ(q2.get_distance(), clampd((tt?R.from(S):R.to(S))[p]), "individual query"); c.count("individual queries compared"); }
		}
		c.desc=dsave;
		if(r.chance(1,4)){ q.reset(); auto S=random_ends(r,g,2,om),T=random_ends(r,g,2,om); ref_point_query(c,R,q,S,T,"plain query after pinned ones"); check_paths(c,g,q,S,T,best_to(R.from(S),T),"plain query after pinned ones"); }
	}
	if(nt) c.nontrivial(g.hash());
	if(g.m()>8) c.sample(c.desc);
}
