// shared CH/CCH building helpers for the harnesses
#pragma once
#include "gen.h"
#include <routingkit/contraction_hierarchy.h>
namespace gen{
typedef std::vector<std::pair<unsigned,uint64_t>> Ends;
// any permutation is a valid order, but bad ones are too slow on large graphs
inline std::vector<unsigned> some_order(Rng&r, const Graph&g){
	if(g.n<2000) return random_order(r,g.n);
	auto o=RoutingKit::ContractionHierarchy::build(g.n,g.tail,g.head,g.weight).order; for(unsigned i=0;i<g.n/1000;++i){ unsigned a=r.below(g.n/2), b=r.below(g.n/2); std::swap(o[a],o[b]); }
	return o;
}
inline RoutingKit::ContractionHierarchy build_ch(vh::Case&c, const Graph&g){
	Rng&r=c.rng;
	static const unsigned pops[]={500,0,1,2,5,50};
	unsigned v=r.below(5), mp=pops[r.below(6)];
	if(g.n>=2000 && g.n<20000) mp=std::max(mp,50u); // without witnesses the wide graphs become dense
	c.desc+=vh::fmt(" ch(variant %u max_pop %u)", v, mp);
	if(v<=1) return RoutingKit::ContractionHierarchy::build(g.n,g.tail,g.head,g.weight);
	if(v==2) return RoutingKit::ContractionHierarchy::build(g.n,g.tail,g.head,g.weight,nullptr,mp);
	auto o=some_order(r,g); if(g.n>=2000) mp=std::min(mp,100u);
	return RoutingKit::ContractionHierarchy::build_given_order(o,g.tail,g.head,g.weight,nullptr,mp);
}
inline uint64_t offset_limit(const Graph&g){
	uint64_t omax=1; for(auto w:g.weight) if(w<INF) omax=std::max<uint64_t>(omax,w);
	return std::min<uint64_t>(omax*2, (INF-2)/(g.n+4));
}
inline Ends random_ends(Rng&r, const Graph&g, unsigned maxk, uint64_t om){
	Ends e; unsigned k=r.in(1,maxk); for(unsigned i=0;i<k;++i) e.push_back({(unsigned)r.below(g.n), r.chance(1,20)?INF-1-r.below(r.chance(1,2)?3:INF-1):r.below(om+1)}); return e;
}
inline std::string show_ends(const Ends&S, const Ends&T){
	std::string s; for(auto&x:S) s+=vh::fmt(" s%u+%llu",x.first,(unsigned long long)x.second); for(auto&x:T) s+=vh::fmt(" t%u+%llu",x.first,(unsigned long long)x.second); return s;
}
inline uint64_t offset_of(const Ends&e, unsigned x){ uint64_t b=INF64; for(auto&p:e) if(p.first==x) b=std::min(b,p.second); return b; }
inline uint64_t best_to(const std::vector<uint64_t>&d, const Ends&T){ uint64_t b=INF64; for(auto&t:T) if(d[t.first]<INF64) b=std::min(b,d[t.first]+t.second); return b; }
// path oracle shared by CH and CCH: q has been run with S,T
template<class Q>
void check_paths(vh::Case&c, const Graph&g, Q&q, const Ends&S, const Ends&T, uint64_t best, const char*what){
	auto arcs=q.get_arc_path(); auto nodes=q.get_node_path();
	unsigned us=q.get_used_source(), ut=q.get_used_target(), dist=q.get_distance();
	std::string ctx=what+show_ends(S,T);
	if(clampd(best)==INF){
		VH_REQUIRE(dist==INF, "%s: unreachable but distance %u reported", ctx.c_str(), dist);
		VH_REQUIRE(arcs.empty()&&nodes.empty(), "%s: unreachable but path with %zu arcs and %zu nodes", ctx.c_str(), arcs.size(), nodes.size());
		VH_REQUIRE(us==4294967295u&&ut==4294967295u, "%s: unreachable but used source %u target %u", ctx.c_str(), us, ut);
		c.count("unreachable path queries"); return;
	}
	uint64_t os=offset_of(S,us), ot=offset_of(T,ut);
	VH_REQUIRE(os<INF64, "%s: used source %u was never added", ctx.c_str(), us);
	VH_REQUIRE(ot<INF64, "%s: used target %u was never added", ctx.c_str(), ut);
	uint64_t sum=check_walk(g,arcs,us,ut,ctx.c_str());
	check_node_path(g,arcs,nodes,us,ctx.c_str());
	VH_REQUIRE(nodes.back()==ut, "%s: node path ends at %u, used target is %u", ctx.c_str(), nodes.back(), ut);
	VH_REQUIRE(dist==best, "%s: reported distance %u, true distance %llu", ctx.c_str(), dist, (unsigned long long)best);
	VH_REQUIRE(os+sum+ot==best, "%s: path %s has length %llu + offsets %llu + %llu, distance is %llu", ctx.c_str(), vh::show(arcs).c_str(), (unsigned long long)sum,(unsigned long long)os,(unsigned long long)ot,(unsigned long long)best);
	c.count("paths checked"); c.count("path arcs checked", arcs.size()); c.maxi("arcs on a path", arcs.size());
	// reading a second time gives the same
	if(c.rng.chance(1,8)) VH_REQUIRE(q.get_arc_path()==arcs && q.get_node_path()==nodes && q.get_distance()==dist, "%s: second read of the result differs", ctx.c_str());
}
}
