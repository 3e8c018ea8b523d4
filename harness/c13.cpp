// C13: fragments, connected components, separator decompositions, nested dissection orders
#include "fragutil.h"
using namespace RoutingKit; using namespace frag;
static std::vector<GraphFragment> check_parts(vh::Case&c, const GraphFragment&f){
	auto parts=decompose_graph_fragment_into_connected_components(f);
	unsigned k; auto comp=components(f,k);
	VH_EQ((size_t)parts.size(), (size_t)k, "number of connected components");
	std::vector<unsigned>ids; ArcList all;
	std::map<unsigned,unsigned>comp_of; for(unsigned x=0;x<f.node_count();++x) comp_of[f.global_node_id[x]]=comp[x];
	for(auto&p:parts){
		check_fragment(p,"component");
		unsigned kk; components(p,kk); VH_EQ(kk,1u,"a part is not connected");
		for(auto x:p.global_node_id){ ids.push_back(x); VH_REQUIRE(comp_of.count(x)&&comp_of[x]==comp_of[p.global_node_id[0]], "part mixes components"); }
		auto g=global_arcs(p); all.insert(all.end(), g.begin(), g.end());
	}
	std::sort(ids.begin(), ids.end()); auto want=f.global_node_id; std::sort(want.begin(), want.end());
	VH_REQUIRE(ids==want, "components do not partition the nodes");
	std::sort(all.begin(), all.end());
	VH_REQUIRE(all==global_arcs(f), "components do not partition the arcs");
	c.count("fragments decomposed"); c.count("components", parts.size());
	return parts;
}
static void check_order(const std::vector<unsigned>&o, unsigned n, const char*what){
	VH_EQ(o.size(), (size_t)n, "%s: order length", what);
	std::vector<char>seen(n,0);
	for(unsigned x:o){ VH_REQUIRE(x<n, "%s: node %u out of range", what, x); VH_REQUIRE(!seen[x], "%s: node %u twice", what, x); seen[x]=1; }
}
static void check_decomp(vh::Case&c, const SeparatorDecomposition&d, unsigned n, const gen::Graph&g){
	check_order(d.order, n, "separator decomposition");
	if(n==0) return;
	unsigned t=d.tree.size();
	VH_REQUIRE(t>0, "empty tree");
	std::vector<unsigned>parent(t,~0u), depth(t,0); std::vector<unsigned>node_of(n,~0u); unsigned visited=0;
	// iterative walk over (node, parent)
	std::vector<std::pair<unsigned,unsigned>>st{{0,~0u}}; std::vector<char>seen(t,0);
	while(!st.empty()){
		auto e=st.back(); st.pop_back(); unsigned x=e.first;
		VH_REQUIRE(x<t, "tree index %u out of range", x); VH_REQUIRE(!seen[x], "tree node %u reached twice", x); seen[x]=1; ++visited; parent[x]=e.second; depth[x]=e.second==~0u?0:depth[e.second]+1;
		auto&N=d.tree[x];
		VH_REQUIRE(N.first_separator_vertex<=N.last_separator_vertex && N.last_separator_vertex<=n, "separator range [%u,%u) of tree node %u", N.first_separator_vertex, N.last_separator_vertex, x);
		for(unsigned i=N.first_separator_vertex;i<N.last_separator_vertex;++i){ VH_REQUIRE(node_of[i]==~0u, "position %u in two separators", i); node_of[i]=x; }
		if(x==0) VH_EQ(N.right_sibling, 0u, "root has a sibling");
		if(N.right_sibling) st.push_back({N.right_sibling, e.second});
		if(N.left_child) st.push_back({N.left_child, x});
	}
	VH_EQ(visited, t, "unreachable tree nodes");
	for(unsigned i=0;i<n;++i) VH_REQUIRE(node_of[i]!=~0u, "position %u in no separator", i);
	// contiguous subtree ranges, separator last
	std::vector<unsigned>lo(t,~0u), hi(t,0);
	for(unsigned i=0;i<n;++i) for(unsigned x=node_of[i]; x!=~0u; x=parent[x]){ lo[x]=std::min(lo[x],i); hi[x]=std::max(hi[x],i+1); }
	std::vector<unsigned>cnt(t,0); for(unsigned i=0;i<n;++i) for(unsigned x=node_of[i]; x!=~0u; x=parent[x]) ++cnt[x];
	for(unsigned x=0;x<t;++x){ VH_REQUIRE(cnt[x]>0, "tree node %u covers nothing", x); VH_EQ(hi[x]-lo[x], cnt[x], "subtree %u is not contiguous", x); if(d.tree[x].first_separator_vertex!=d.tree[x].last_separator_vertex) VH_EQ(hi[x], d.tree[x].last_separator_vertex, "separator of %u is not last in its range", x); }
	std::vector<unsigned>tn(n); for(unsigned i=0;i<n;++i) tn[d.order[i]]=node_of[i];
	for(unsigned a=0;a<g.m();++a){
		unsigned u=tn[g.tail[a]], v=tn[g.head[a]];
		while(depth[u]>depth[v]) u=parent[u];
		while(depth[v]>depth[u]) v=parent[v];
		VH_REQUIRE(u==v, "arc %u->%u joins disjoint subtrees", g.tail[a], g.head[a]);
	}
	c.count("separator trees checked"); c.maxi("tree nodes", t); c.count("tree nodes seen", t);
}
void vh_case(vh::Case&c){
	auto&r=c.rng;
	gen::Opt o; o.size_class = c.large(2999) ? 3 : (c.is_rel() && c.idx%50==7) ? 2 : 1;
	gen::Graph g=gen::graph(r,o);
	if(r.chance(1,40)){ g=gen::Graph(); g.kind="no nodes"; }
	c.desc=g.show();
	auto f=make_graph_fragment(g.n, g.tail, g.head);
	check_fragment(f,"make_graph_fragment");
	VH_EQ(f.node_count(), g.n, "node count");
	for(unsigned x=0;x<g.n;++x) VH_EQ(f.global_node_id[x], x, "global ids");
	VH_REQUIRE(global_arcs(f)==expected_arcs(g), "fragment arcs are not the symmetric closure");
	auto parts=check_parts(c,f);
	unsigned calls=0;
	auto exp=expected_arcs(g);
	auto monitor=[&](const GraphFragment&p){
		++calls; vh::beat();
		check_fragment(p,"fragment given to the separator function");
		VH_REQUIRE(p.node_count()>=2, "separator function called for %u nodes", p.node_count());
		unsigned k; components(p,k); VH_EQ(k,1u,"separator function called for a disconnected fragment");
		auto ga=global_arcs(p); VH_REQUIRE(std::includes(exp.begin(),exp.end(),ga.begin(),ga.end()), "fragment contains foreign arcs");
		if(p.node_count()>3 && r.chance(1,8)) check_parts(c,p);
		c.count("separator calls");
	};
	unsigned mode=r.below(4);
	c.desc+=vh::fmt(" separator mode %u", mode);
	auto sep=[&](const GraphFragment&p)->BitVector{
		monitor(p);
		unsigned n=p.node_count();
		if(mode==0){ BitVector b(n,false); unsigned k=r.in(1,std::max(1u,n/3)); for(unsigned i=0;i<k;++i) b.set(r.below(n)); return b; }
		if(mode==1){ BitVector cut(n,false); unsigned k=r.in(1,n-1); for(unsigned i=0;i<k;++i) cut.set(r.below(n)); if(cut.population_count()==n) cut.reset(r.below(n)); return derive_separator_from_cut(p,cut); }
		if(mode==2){ BitVector b(n,false); b.set(r.below(n)); return b; }
		auto cut=inertial_flow(p, g.lat, g.lon); pick_smaller_side(cut); return derive_separator_from_cut(p, cut.is_node_on_side);
	};
	if(g.n<500 || mode!=2){
		auto d = r.chance(1,2) ? compute_separator_decomposition(f, sep) : compute_separator_decomposition(f, sep, nullptr);
		check_decomp(c,d,g.n,g);
		auto o2=compute_nested_node_dissection_order(f, sep, nullptr); check_order(o2,g.n,"nested dissection order");
	}
	auto o3=compute_nested_node_dissection_order_using_inertial_flow(g.n,g.tail,g.head,g.lat,g.lon, r.chance(1,2)?std::function<void(const std::string&)>([](const std::string&){}):nullptr);
	check_order(o3,g.n,"inertial flow order"); c.count("inertial flow orders");
	if(calls>0) c.nontrivial(g.hash());
	if(c.idx<2) c.sample(c.desc+" inertial order "+vh::show(o3,30));
}
