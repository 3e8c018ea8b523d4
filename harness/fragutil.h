// Independent checks of graph fragments and a reference max-flow (unit capacities, augmenting paths).
#pragma once
#include "gen.h"
#include <routingkit/nested_dissection.h>
#include <queue>
namespace frag{
using namespace RoutingKit;
typedef std::vector<std::pair<unsigned,unsigned>> ArcList;
inline void check_fragment(const GraphFragment&f, const char*what){
	unsigned n=f.node_count(), m=f.tail.size();
	VH_REQUIRE(f.head.size()==m && f.back_arc.size()==m, "%s: inconsistent arc array sizes", what);
	VH_REQUIRE(f.first_out.size()==n+1, "%s: first_out has size %zu for %u nodes", what, f.first_out.size(), n);
	VH_REQUIRE(f.first_out[0]==0 && f.first_out[n]==m, "%s: first_out bounds wrong", what);
	for(unsigned a=0;a<m;++a){
		VH_REQUIRE(f.tail[a]<n && f.head[a]<n, "%s: arc %u end out of range", what, a);
		VH_REQUIRE(f.tail[a]!=f.head[a], "%s: loop arc %u", what, a);
		VH_REQUIRE(f.first_out[f.tail[a]]<=a && a<f.first_out[f.tail[a]+1], "%s: first_out wrong at arc %u", what, a);
		if(a) VH_REQUIRE(std::make_pair(f.tail[a-1],f.head[a-1])<=std::make_pair(f.tail[a],f.head[a]), "%s: arcs %u,%u not sorted", what, a-1,a);
		unsigned b=f.back_arc[a];
		VH_REQUIRE(b<m, "%s: back arc of %u out of range", what, a);
		VH_REQUIRE(f.back_arc[b]==a, "%s: back arc of %u is %u whose back arc is %u", what, a, b, f.back_arc[b]);
		VH_REQUIRE(f.tail[b]==f.head[a] && f.head[b]==f.tail[a], "%s: back arc %u of %u is not its reverse", what, b, a);
	}
	for(unsigned x=0;x<n;++x) VH_REQUIRE(f.first_out[x]<=f.first_out[x+1], "%s: first_out decreases at %u", what, x);
}
inline ArcList global_arcs(const GraphFragment&f){
	ArcList r; for(unsigned a=0;a<f.tail.size();++a) r.push_back({f.global_node_id[f.tail[a]], f.global_node_id[f.head[a]]});
	std::sort(r.begin(), r.end()); return r;
}
inline ArcList expected_arcs(const gen::Graph&g){
	ArcList r; for(unsigned a=0;a<g.m();++a) if(g.tail[a]!=g.head[a]){ r.push_back({g.tail[a],g.head[a]}); r.push_back({g.head[a],g.tail[a]}); }
	std::sort(r.begin(), r.end()); return r;
}
inline std::vector<unsigned> components(const GraphFragment&f, unsigned&k){
	unsigned n=f.node_count(); std::vector<unsigned>c(n,~0u); k=0;
	for(unsigned s=0;s<n;++s) if(c[s]==~0u){ std::vector<unsigned>st{s}; c[s]=k; while(!st.empty()){ unsigned x=st.back(); st.pop_back(); for(unsigned a=f.first_out[x];a<f.first_out[x+1];++a) if(c[f.head[a]]==~0u){ c[f.head[a]]=k; st.push_back(f.head[a]); } } ++k; }
	return c;
}
// minimum number of arcs whose removal separates src from trg; each fragment arc has capacity one per direction
inline unsigned max_flow(const GraphFragment&f, const std::vector<bool>&src, const std::vector<bool>&trg){
	unsigned n=f.node_count(), m=f.tail.size(), flow=0;
	std::vector<int>cap(m,1);
	// residual of arc a: cap[a]; pushing along a decreases cap[a] and increases cap[back]
	for(;;){
		std::vector<unsigned>via(n,~0u); std::vector<char>seen(n,0); std::queue<unsigned>q; unsigned t=~0u;
		for(unsigned x=0;x<n;++x) if(src[x]){ seen[x]=1; q.push(x); }
		while(!q.empty() && t==~0u){
			unsigned x=q.front(); q.pop();
			for(unsigned a=f.first_out[x];a<f.first_out[x+1];++a) if(cap[a]>0 && !seen[f.head[a]]){ unsigned y=f.head[a]; seen[y]=1; via[y]=a; if(trg[y]){ t=y; break; } q.push(y); }
		}
		if(t==~0u) return flow;
		for(unsigned x=t; via[x]!=~0u; x=f.tail[via[x]]){ --cap[via[x]]; ++cap[f.back_arc[via[x]]]; }
		++flow;
	}
}
inline std::vector<bool> bools(const BitVector&b, unsigned n){ std::vector<bool>r(n); for(unsigned i=0;i<n;++i) r[i]=b.is_set(i); return r; }
}
