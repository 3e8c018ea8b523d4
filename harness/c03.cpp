// C03: CH pinned queries
#include "chutil.h"
using namespace RoutingKit; using namespace gen; using namespace vh;
void vh_case(Case&c){
	Rng&r=c.rng; Opt o; o.size_class = c.large(499) ? 3 : c.idx%30==0 ? 2 : (c.idx%3==0 ? 0 : 1); o.allow_inf=o.allow_huge=true;
	Graph g=graph(r,o); c.desc=g.show(); Adj adj(g); Graph rg=reversed(g); Adj radj(rg);
	auto ch=build_ch(c,g);
	ContractionHierarchyQuery q(ch); uint64_t om=offset_limit(g); bool nt=false;
	unsigned rounds=r.in(1,4);
	for(unsigned k=0;k<rounds;++k){
		if(k || r.chance(1,2)) q.reset();
		std::vector<unsigned>pins; unsigned np=0;
		switch(r.below(5)){ case 0: np=0; break; case 1: np=1; break; case 2: np=r.in(1,5); break; case 3: np=r.in(1,g.n); break; default: np=r.in(1,2*g.n+3); }
		for(unsigned i=0;i<np;++i) pins.push_back(r.below(g.n));
		if(r.chance(1,6)){ pins=random_order(r,g.n); }
		if(pins.size()>g.n) c.count("pinned lists longer than the node count");
		bool to_targets=r.chance(1,2);
		std::string dsave=c.desc; c.desc+=std::string(to_targets?" pin targets ":" pin sources ")+show(pins,30);
		if(to_targets) q.pin_targets(pins); else q.pin_sources(pins);
		VH_EQ(to_targets?q.get_pinned_target_count():q.get_pinned_source_count(), pins.size(), "pinned count");
		unsigned runs=r.in(1,5);
		for(unsigned i=0;i<runs;++i){
			if(i || r.chance(1,3)){ if(to_targets) q.reset_source(); else q.reset_target(); }
			if(r.chance(1,10)){ // abandoned additions
				if(to_targets){ q.add_source(r.below(g.n),r.below(om+1)); q.reset_source(); } else { q.add_target(r.below(g.n),r.below(om+1)); q.reset_target(); } }
			auto S=random_ends(r,g,r.chance(1,3)?6:1,r.chance(1,2)?0:om);
			for(auto&x:S){ if(to_targets) q.add_source(x.first,x.second); else q.add_target(x.first,x.second); }
			if(to_targets) q.run_to_pinned_targets(); else q.run_to_pinned_sources();
			auto d = to_targets ? dists(g,adj,S) : dists(rg,radj,S);
			std::vector<unsigned>got, got2(pins.size()+1, 0xdeadbeef);
			if(to_targets){ got=q.get_distances_to_targets(); q.get_distances_to_targets(got2.data()); } else { got=q.get_distances_to_sources(); q.get_distances_to_sources(got2.data()); }
			VH_EQ(got.size(), pins.size(), "result size");
			VH_EQ(got2.back(), 0xdeadbeefu, "wrote past the end");
			std::vector<unsigned>us = to_targets ? q.get_used_sources_to_targets() : q.get_used_targets_to_sources();
			std::vector<unsigned>us2(pins.size()+1, 0xdeadbeef);
			if(to_targets) q.get_used_sources_to_targets(us2.data()); else q.get_used_targets_to_sources(us2.data());
			VH_EQ(us.size(), pins.size(), "used size"); VH_EQ(us2.back(), 0xdeadbeefu, "wrote past the end");
			std::map<unsigned,std::vector<uint64_t>>single;
			for(size_t j=0;j<pins.size();++j){
				uint64_t want=d[pins[j]];
				VH_REQUIRE(got[j]==clampd(want), "run %u entry %zu (node %u) ends%s: %u instead of %u", i, j, pins[j], show_ends(S,{}).c_str(), got[j], clampd(want));
				VH_REQUIRE(got2[j]==got[j] && us2[j]==us[j], "pointer overload differs at %zu", j);
				if(want>=INF) VH_REQUIRE(us[j]==4294967295u, "unreachable entry %zu reports used end %u", j, us[j]);
				else {
					uint64_t off=offset_of(S,us[j]);
					VH_REQUIRE(off<INF64, "entry %zu: used end %u was not added", j, us[j]);
					auto it=single.find(us[j]); if(it==single.end()) it=single.insert({us[j], to_targets?dists(g,adj,us[j]):dists(rg,radj,us[j])}).first;
					VH_REQUIRE(off+it->second[pins[j]]==want, "entry %zu: used end %u does not realise the distance %llu", j, us[j], (unsigned long long)want);
					if(want>0) nt=true; c.count("reachable pinned entries");
				}
				c.count("pinned entries");
			}
			c.count("pinned runs");
		}
		c.desc=dsave;
		if(r.chance(1,4)){ // a normal query in between
			q.reset(); unsigned s=r.below(g.n),t=r.below(g.n); q.add_source(s).add_target(t).run(); VH_EQ(q.get_distance(), clampd(dists(g,adj,s)[t]), "plain query %u->%u after pinned ones", s, t);
		}
	}
	if(nt) c.nontrivial(g.hash());
	if(g.m()>8) c.sample(c.desc);
}
