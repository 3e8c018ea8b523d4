// C15: Dijkstra object, online checker of the settle trace
#include "gen.h"
#include <routingkit/dijkstra.h>
using namespace RoutingKit;
struct W{ unsigned kind, w, p, close; // 0 scalar, 1 wait for slot, 2 closing time, 3 late departure gets slower
	uint64_t operator()(uint64_t t)const{ // 64 bit arrival based weight
		if(w>=gen::INF) return gen::INF;
		switch(kind){
			case 1: return (p-t%p)%p+w;
			case 2: return t>=close?gen::INF:w;
			case 3: return w+t/8;
			default: return w;
		} } };
void vh_case(vh::Case&c){
	auto&r=c.rng; gen::Opt o; o.allow_inf=o.allow_huge=true; o.size_class=c.large(999)?3:(c.is_rel()&&c.idx%60==7)?2:1; o.allow_hub=true;
	gen::Graph g=gen::graph(r,o); auto cs=gen::csr(g);
	bool td=r.chance(1,3);
	if(td) for(auto&w:cs.weight) if(w<gen::INF) w%=1000;
	std::vector<W>fn(cs.head.size());
	for(unsigned a=0;a<fn.size();++a) fn[a]=W{td?(unsigned)r.below(4):0u, cs.weight[a], (unsigned)r.in(1,50), (unsigned)r.below(2000)};
	if(td){ bool slow=false; for(auto&f:fn) slow|=f.kind==3; if(slow && g.n>60) for(auto&f:fn) if(f.kind==3) f.kind=1; } // keep totals below infinity
	Dijkstra d(cs.first_out, cs.tail, cs.head);
	unsigned runs=r.in(1,3);
	for(unsigned run=0;run<runs;++run){
		vh::beat();
		if(run) d.reset();
		auto perm=gen::random_order(r,g.n); unsigned ns=r.chance(1,2)?1:r.in(1,std::min(g.n,5u));
		std::vector<std::pair<unsigned,unsigned>>src;
		for(unsigned i=0;i<ns;++i){ unsigned t=r.chance(1,2)?0:r.below(r.chance(1,2)?5:3000); src.push_back({perm[i],t}); }
		// reference: fixpoint of earliest arrivals
		std::vector<uint64_t>dist(g.n, gen::INF64);
		for(auto&s:src) dist[s.first]=s.second;
		std::vector<char>inq(g.n,0); std::vector<unsigned>work; for(auto&s:src){ work.push_back(s.first); inq[s.first]=1; }
		typedef std::pair<uint64_t,unsigned>E; std::set<E>q; for(auto&s:src) q.insert({s.second,s.first});
		bool over=false; // a path of length INF or more is none
		while(!q.empty()){ auto e=*q.begin(); q.erase(q.begin()); unsigned x=e.second; if(e.first>dist[x]) continue;
			for(unsigned a=cs.first_out[x];a<cs.first_out[x+1];++a){ uint64_t w=fn[a](dist[x]); if(w>=gen::INF) continue; uint64_t nd=dist[x]+w; if(nd>=gen::INF){ over=true; continue; } if(nd<dist[cs.head[a]]){ dist[cs.head[a]]=nd; q.insert({nd,cs.head[a]}); } } }
		std::string sd; for(auto&s:src) sd+=vh::fmt("%u@%u ",s.first,s.second);
		c.desc=g.show()+vh::fmt(" td=%d run %u sources %s", (int)td, run, sd.c_str());
		if(over) c.count("paths that exceed infinity");
		VH_REQUIRE(run==0 ? true : d.is_finished(), "not finished right after reset");
		for(auto&s:src) d.add_source(s.first,s.second);
		std::vector<char>settled(g.n,0); unsigned nsettled=0, last=0, cur=~0u; unsigned curdist=0; unsigned wcalls=0;
		bool use_scalar=!td && r.chance(1,2);
		ScalarGetWeight scalar(cs.weight);
		auto gw=[&](unsigned a, unsigned t)->unsigned{
			++wcalls;
			VH_REQUIRE(a<fn.size(), "weight asked for arc %u", a);
			VH_EQ((uint64_t)t, dist[cs.tail[a]], "departure time passed for arc %u", a);
			return (unsigned)fn[a](t);
		};
		unsigned reach=0; for(auto x:dist) if(x!=gen::INF64) ++reach;
		unsigned stop=r.chance(1,3)?r.below(reach+1):~0u;
		auto check_all=[&](bool paths){
			for(unsigned x=0;x<g.n;++x){
				VH_EQ(d.was_node_reached(x), (bool)settled[x], "was_node_reached(%u)", x);
				VH_EQ((uint64_t)d.get_distance_to(x), settled[x]?dist[x]:(uint64_t)gen::INF, "get_distance_to(%u)", x);
				if(g.n>5000 ? x%4999!=g.n%4999 : (!paths && x%7)) continue;
				auto np=d.get_node_path_to(x), ap=d.get_arc_path_to(x);
				if(!settled[x]){ VH_REQUIRE(np.empty()&&ap.empty(), "path to unsettled node %u", x); continue; }
				VH_REQUIRE(!np.empty() && np.back()==x && np.size()==ap.size()+1, "node path to %u has %zu nodes and %zu arcs", x, np.size(), ap.size());
				bool is_src=false; uint64_t t=0; for(auto&s:src) if(s.first==np[0]){ is_src=true; t=s.second; }
				VH_REQUIRE(is_src, "path to %u starts at %u which is no source", x, np[0]);
				for(unsigned i=0;i<ap.size();++i){
					VH_REQUIRE(ap[i]<fn.size() && cs.tail[ap[i]]==np[i] && cs.head[ap[i]]==np[i+1], "path to %u: arc %u does not connect %u and %u", x, ap[i], np[i], np[i+1]);
					uint64_t w=fn[ap[i]](t); VH_REQUIRE(w<gen::INF, "path to %u uses impassable arc %u", x, ap[i]); t+=w;
				}
				VH_EQ(t, dist[x], "length of the path to %u", x); c.count("paths checked");
			}
		};
		while(!d.is_finished()){
			if(nsettled==stop){ check_all(true); c.count("early stops"); stop=~0u; if(r.chance(1,2)) break; }
			auto s = use_scalar ? d.settle(scalar) : d.settle(gw);
			VH_REQUIRE(s.node<g.n, "settled node %u", s.node);
			VH_REQUIRE(!settled[s.node], "node %u settled twice", s.node);
			VH_REQUIRE(s.distance>=last, "settled %u at %u after %u", s.node, s.distance, last);
			VH_EQ((uint64_t)s.distance, dist[s.node], "distance of settled node %u", s.node);
			settled[s.node]=1; ++nsettled; last=s.distance;
			VH_EQ(d.get_distance_to(s.node), s.distance, "distance right after settling %u", s.node);
			VH_REQUIRE(nsettled<=g.n, "too many settled");
			c.count("settle events");
		}
		if(d.is_finished()){ VH_EQ(nsettled, reach, "number of settled nodes vs reachable nodes"); check_all(g.n<200); if(reach>2) c.nontrivial(vh::hcombine(g.hash(),td)); }
		(void)cur;(void)curdist; c.count("weight requests observed", wcalls);
	}
	c.count(td?"time dependent searches":"static searches");
	if(c.idx<2) c.sample(c.desc);
}
