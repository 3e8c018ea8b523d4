// C20: arc sorting, arc lookup, path conversion
#include "gen.h"
#include <routingkit/graph_util.h>
#include <routingkit/constants.h>
using namespace RoutingKit;
typedef std::pair<unsigned,unsigned> P;
static void check_sort(const std::vector<unsigned>&a, const std::vector<unsigned>&b, const std::vector<unsigned>&p, bool inverse, const char*what){
	size_t n=a.size(); VH_EQ(p.size(), n, "%s: size", what); std::vector<char>seen(n,0); for(auto x:p){ VH_REQUIRE(x<n && !seen[x], "%s: not a permutation", what); seen[x]=1; }
	std::vector<P>s(n); for(size_t i=0;i<n;++i){ if(inverse) s[p[i]]=P(a[i],b[i]); else s[i]=P(a[p[i]],b[p[i]]); }
	for(size_t i=1;i<n;++i) VH_REQUIRE(s[i-1]<=s[i], "%s: order wrong at position %zu: (%u,%u) before (%u,%u)", what, i, s[i-1].first, s[i-1].second, s[i].first, s[i].second);
}
void vh_case(vh::Case&c){
	auto&r=c.rng; gen::Opt o; o.size_class=c.large(499)?3:1; o.allow_hub=true; gen::Graph g=gen::graph(r,o);
	if(r.chance(1,4)){ // few arcs, many nodes: comparator regime
		g.n*=r.in(20,200); for(auto&x:g.tail) x=r.below(g.n); for(auto&x:g.head) x=r.below(g.n); c.count("sparse arc lists"); }
	if(r.chance(1,6)) std::sort(g.tail.begin(),g.tail.end());
	c.desc=g.show();
	check_sort(g.tail,g.head,compute_inverse_sort_permutation_first_by_tail_then_by_head(g.n,g.tail,g.head),true,"inverse sort by tail,head");
	check_sort(g.tail,g.head,compute_sort_permutation_first_by_tail_then_by_head(g.n,g.tail,g.head),false,"sort by tail,head");
	auto sorted=g.tail; std::sort(sorted.begin(),sorted.end());
	{ auto t=g.tail; auto p=compute_inverse_sort_permutation_first_by_tail_then_by_head_and_apply_sort_to_tail(g.n,t,g.head); check_sort(g.tail,g.head,p,true,"inverse sort and apply"); VH_REQUIRE(t==sorted,"tail not sorted by inverse sort and apply"); }
	{ auto t=g.tail; auto p=compute_sort_permutation_first_by_tail_then_by_head_and_apply_sort_to_tail(g.n,t,g.head); check_sort(g.tail,g.head,p,false,"sort and apply"); VH_REQUIRE(t==sorted,"tail not sorted by sort and apply"); }
	// left/right with different ranges
	{ unsigned bc=1+r.below(r.chance(1,2)?5:100000); std::vector<unsigned>b(g.m()); for(auto&x:b) x=r.chance(1,6)?bc-1:r.below(bc);
		check_sort(g.tail,b,compute_sort_permutation_first_by_left_then_by_right(g.n,g.tail,bc,b),false,"sort left,right"); check_sort(g.tail,b,compute_inverse_sort_permutation_first_by_left_then_by_right(g.n,g.tail,bc,b),true,"inverse sort left,right");
		auto t=g.tail; check_sort(g.tail,b,compute_inverse_sort_permutation_first_by_left_then_by_right_and_apply_sort_to_left(g.n,t,bc,b),true,"inverse left,right and apply"); VH_REQUIRE(t==sorted,"left not sorted");
		check_sort(b,g.tail,compute_sort_permutation_first_by_left_then_by_right(bc,b,g.n,g.tail),false,"sort right,left"); }
	c.count("sorts",10);
	if(g.n>2000) { unsigned nn=2000; for(auto&x:g.tail) x%=nn; for(auto&x:g.head) x%=nn; g.n=nn; }
	auto cs=gen::csr(g); auto sh=cs.head; for(unsigned x=0;x<g.n;++x) std::sort(sh.begin()+cs.first_out[x], sh.begin()+cs.first_out[x+1]);
	unsigned probes=g.n<=12?g.n*g.n:150;
	for(unsigned k=0;k<probes;++k){
		unsigned x,y; if(g.n<=12){ x=k/g.n; y=k%g.n; } else { x=r.below(g.n); y=r.below(g.n); if(r.chance(1,2)&&g.m()){ unsigned a=r.below(g.m()); x=cs.tail[a]; y=cs.head[a]; } }
		bool ex=false; for(unsigned a=cs.first_out[x];a<cs.first_out[x+1];++a) ex|=cs.head[a]==y;
		auto chk=[&](unsigned a, const std::vector<unsigned>&h, const char*what){ if(!ex) VH_EQ(a,(unsigned)invalid_id,"%s(%u,%u)",what,x,y); else VH_REQUIRE(a<h.size()&&a>=cs.first_out[x]&&a<cs.first_out[x+1]&&h[a]==y,"%s(%u,%u) returned %u",what,x,y,a); };
		chk(find_arc_or_return_invalid(cs.first_out,cs.head,x,y),cs.head,"find_arc_or_return_invalid"); chk(find_arc_or_return_invalid_given_sorted_head(cs.first_out,sh,x,y),sh,"find_arc_or_return_invalid_given_sorted_head");
		if(ex){ chk(find_arc(cs.first_out,cs.head,x,y),cs.head,"find_arc"); chk(find_arc_given_sorted_head(cs.first_out,sh,x,y),sh,"find_arc_given_sorted_head"); }
		c.count(ex?"existing arcs looked up":"missing arcs looked up");
	}
	for(unsigned k=0;k<6;++k){ // random walks
		if(!g.m()) break;
		unsigned x=cs.tail[r.below(g.m())]; std::vector<unsigned>nodes{x}, arcs; unsigned len=r.chance(1,3)?r.in(1,2):r.chance(1,40)?r.below(3000):r.below(12); if(c.large(499)&&k<2) len=r.pick({65535u,65536u,65537u,140000u});
		while(arcs.size()<len && cs.first_out[x]!=cs.first_out[x+1]){ unsigned a=r.in(cs.first_out[x],cs.first_out[x+1]-1); arcs.push_back(a); x=cs.head[a]; nodes.push_back(x); }
		c.desc=g.show()+" walk "+vh::show(arcs);
		if(!arcs.empty()){ auto np=convert_arc_path_to_node_path(nodes[0],cs.head,arcs); VH_REQUIRE(np==nodes,"convert_arc_path_to_node_path gave %s instead of %s", vh::show(np).c_str(), vh::show(nodes).c_str()); c.count("walks converted"); if(arcs.size()>65535) c.count("walks of more than 65535 arcs converted"); }
		auto ap=convert_node_path_to_arc_path(cs.first_out,cs.head,nodes); VH_EQ(ap.size(),arcs.size(),"arc path length");
		for(size_t i=0;i<ap.size();++i) VH_REQUIRE(ap[i]<g.m()&&cs.tail[ap[i]]==nodes[i]&&cs.head[ap[i]]==nodes[i+1],"arc path position %zu is %u",i,ap[i]);
		VH_REQUIRE(convert_node_path_to_arc_path(cs.first_out,cs.head,{}).empty(),"arc path of nothing");
	}
	if(g.m()>2) c.nontrivial(g.hash());
	if(c.idx<2) c.sample(c.desc);
}
