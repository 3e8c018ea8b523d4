// CCH building helpers and query histories shared by several harnesses
#pragma once
#include "chutil.h"
#include <routingkit/customizable_contraction_hierarchy.h>
#include <routingkit/nested_dissection.h>
namespace gen{
// greedy minimum degree elimination order (independent of the library)
inline std::vector<unsigned> min_degree_order(Rng&r, const Graph&g){
	std::vector<std::set<unsigned>>a(g.n);
	for(unsigned i=0;i<g.m();++i) if(g.tail[i]!=g.head[i]){ a[g.tail[i]].insert(g.head[i]); a[g.head[i]].insert(g.tail[i]); }
	std::set<std::pair<std::pair<size_t,uint64_t>,unsigned>>q; std::vector<uint64_t>tie(g.n);
	for(unsigned i=0;i<g.n;++i){ tie[i]=r.next(); q.insert({{a[i].size(),tie[i]},i}); }
	std::vector<unsigned>o;
	while(!q.empty()){
		unsigned x=q.begin()->second; q.erase(q.begin()); o.push_back(x);
		std::vector<unsigned>nb(a[x].begin(),a[x].end());
		for(unsigned y:nb){ q.erase({{a[y].size(),tie[y]},y}); a[y].erase(x); }
		for(unsigned y:nb) for(unsigned z:nb) if(y!=z) a[y].insert(z);
		for(unsigned y:nb) q.insert({{a[y].size(),tie[y]},y});
	}
	return o;
}
inline std::vector<unsigned> cch_order(vh::Case&c, const Graph&g){
	Rng&r=c.rng; unsigned k=r.below(6);
	if(g.kind=="dense") k=r.below(4);
	else if(g.n>250 && k<4) k=4+r.below(2);
	if(g.n>5000) k=4;
	if(k<=1){ c.desc+=" order=random"; return random_order(r,g.n); }
	if(k==2){ c.desc+=" order=identity"; std::vector<unsigned>o(g.n); for(unsigned i=0;i<g.n;++i)o[i]=i; return o; }
	if(k==3){ c.desc+=" order=reverse"; std::vector<unsigned>o(g.n); for(unsigned i=0;i<g.n;++i)o[i]=g.n-1-i; return o; }
	if(k==4){ c.desc+=" order=mindegree"; return min_degree_order(r,g); }
	c.desc+=" order=inertialflow";
	return RoutingKit::compute_nested_node_dissection_order_using_inertial_flow(g.n,g.tail,g.head,g.lat,g.lon);
}
inline RoutingKit::CustomizableContractionHierarchy build_cch(vh::Case&c, const Graph&g){
	auto o=cch_order(c,g); bool f=c.rng.chance(1,2); c.desc+=f?" filtered":" unfiltered";
	return RoutingKit::CustomizableContractionHierarchy(o,g.tail,g.head,[](const std::string&){},f);
}
inline void new_weights(Rng&r, Graph&g){ Opt o; o.allow_inf=o.allow_huge=true; weights(r,g,o); }

struct Ref{ // reference data of one weighted graph
	Graph g, rg; Adj adj, radj;
	explicit Ref(const Graph&x):g(x),rg(reversed(x)),adj(g),radj(rg){}
	std::vector<uint64_t> from(const Ends&S)const{ return dists(g,adj,S); }
	std::vector<uint64_t> to(const Ends&T)const{ return dists(rg,radj,T); }
};
template<class Q> bool ref_point_query(vh::Case&c, const Ref&R, Q&q, const Ends&S, const Ends&T, const char*what){
	for(auto&x:S) q.add_source(x.first,x.second);
	for(auto&x:T) q.add_target(x.first,x.second);
	q.run();
	uint64_t best=best_to(R.from(S),T);
	VH_REQUIRE(q.get_distance()==clampd(best), "%s%s: distance %u instead of %u", what, show_ends(S,T).c_str(), q.get_distance(), clampd(best));
	return clampd(best)<INF && best>0;
}
template<class Q> bool ref_pinned_run(vh::Case&c, const Ref&R, Q&q, bool to_targets, const std::vector<unsigned>&pins, const Ends&S, const char*what){
	for(auto&x:S){ if(to_targets) q.add_source(x.first,x.second); else q.add_target(x.first,x.second); }
	if(to_targets) q.run_to_pinned_targets(); else q.run_to_pinned_sources();
	auto d = to_targets ? R.from(S) : R.to(S);
	std::vector<unsigned>got, got2(pins.size()+1,0xdeadbeef);
	if(to_targets){ got=q.get_distances_to_targets(); q.get_distances_to_targets(got2.data()); } else { got=q.get_distances_to_sources(); q.get_distances_to_sources(got2.data()); }
	VH_EQ(got.size(), pins.size(), "%s: result size", what);
	VH_EQ(got2.back(), 0xdeadbeefu, "%s: wrote past the end", what);
	bool nt=false;
	for(size_t j=0;j<pins.size();++j){
		VH_REQUIRE(got[j]==clampd(d[pins[j]]), "%s ends%s: entry %zu (node %u) is %u instead of %u", what, show_ends(S,{}).c_str(), j, pins[j], got[j], clampd(d[pins[j]]));
		VH_REQUIRE(got2[j]==got[j], "%s: pointer overload differs at %zu", what, j);
		if(clampd(d[pins[j]])<INF){ c.count("reachable pinned entries"); if(d[pins[j]]>0) nt=true; } else c.count("unreachable pinned entries");
	}
	c.count("pinned runs");
	return nt;
}
inline std::vector<unsigned> random_pins(Rng&r, const Graph&g){
	std::vector<unsigned>pins; unsigned np=0;
	switch(r.below(6)){ case 0: np=0; break; case 1: np=1; break; case 2: np=r.in(1,5); break; case 3: np=r.in(1,g.n); break; case 4: return random_order(r,g.n); default: np=r.in(1,2*g.n+3); }
	for(unsigned i=0;i<np;++i) pins.push_back(r.below(g.n));
	return pins;
}
// one episode of use, q freshly reset before; leaves q in an arbitrary legal state
template<class Q> void episode(vh::Case&c, const Ref&R, Q&q, uint64_t om){
	Rng&r=c.rng; const Graph&g=R.g; unsigned k=r.below(8);
	std::string save=c.desc;
	if(k==0){ c.desc+=" |abandon source"; auto S=random_ends(r,g,4,om); for(auto&x:S) q.add_source(x.first,x.second); c.count("abandoned"); }
	else if(k==1){ c.desc+=" |abandon target"; auto S=random_ends(r,g,4,om); for(auto&x:S) q.add_target(x.first,x.second); c.count("abandoned"); }
	else if(k==2){ c.desc+=" |abandon both"; auto S=random_ends(r,g,4,om),T=random_ends(r,g,4,om); for(auto&x:S) q.add_source(x.first,x.second); for(auto&x:T) q.add_target(x.first,x.second); c.count("abandoned"); if(r.chance(1,2)) q.run(); }
	else if(k<=5){
		auto S=random_ends(r,g,r.chance(1,2)?1:5,om),T=random_ends(r,g,r.chance(1,2)?1:5,om);
		c.desc+=" |query"+show_ends(S,T);
		uint64_t best=best_to(R.from(S),T);
		ref_point_query(c,R,q,S,T,"reused query");
		if(r.chance(1,2)) check_paths(c,g,q,S,T,best,"reused query");
		c.count("point queries");
	}else{
		bool tt=(k==6); auto pins=random_pins(r,g);
		c.desc+=std::string(tt?" |pin targets ":" |pin sources ")+vh::show(pins,20);
		if(tt) q.pin_targets(pins); else q.pin_sources(pins);
		unsigned runs=r.below(4);
		for(unsigned i=0;i<runs;++i){
			if(i){ if(tt) q.reset_source(); else q.reset_target(); }
			auto S=random_ends(r,g,r.chance(1,2)?1:4,om);
			if(r.chance(1,6)){ for(auto&x:S){ if(tt) q.add_source(x.first,x.second); else q.add_target(x.first,x.second); } c.count("abandoned pinned"); if(tt) q.reset_source(); else q.reset_target(); S=random_ends(r,g,2,om); }
			ref_pinned_run(c,R,q,tt,pins,S,"reused pinned query");
		}
		if(r.chance(1,4)){ if(runs){ if(tt) q.reset_source(); else q.reset_target(); } auto S=random_ends(r,g,3,om); for(auto&x:S){ if(tt) q.add_source(x.first,x.second); else q.add_target(x.first,x.second); } c.count("abandoned pinned"); }
	}
	c.count("episodes");
	if(c.desc.size()>save.size()+1200) c.desc=save+" ..."; 
}
}
