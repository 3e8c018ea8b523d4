// C21: strongly connected components
#include "gen.h"
#include <routingkit/strongly_connected_component.h>
#include <pthread.h>
#include <exception>
using namespace RoutingKit;
static void one(vh::Case&c){
	auto&r=c.rng; gen::Graph g; bool big=c.idx%160==11;
	if(big){ // deep structures
		g.n=c.is_rel()?r.in(50000,300000):r.in(20000,60000); unsigned k=r.below(4); g.kind=vh::fmt("deep %u",k);
		if(k==0) for(unsigned i=1;i<g.n;++i) g.add(i-1,i);
		else if(k==1){ for(unsigned i=0;i<g.n;++i) g.add(i,(i+1)%g.n); }
		else if(k==2){ for(unsigned i=1;i<g.n;++i){ g.add(i-1,i); if(r.chance(1,100)) g.add(i,i-r.below(std::min(i,200u)+1)); } }
		else { for(unsigned i=1;i<g.n;++i){ g.add(i,i-1); if(r.chance(1,50)) g.add(i-r.below(std::min(i,200u)+1),i); } }
		if(r.chance(1,2)) gen::relabel(r,g); g.weight.assign(g.m(),1); c.count("deep graphs");
	}else if(r.chance(1,30)){ g.kind="no nodes"; c.count("graphs without nodes"); }
	else { gen::Opt o; o.size_class=1; g=gen::graph(r,o); if(r.chance(1,3)){ // sparse random: many components
			g.tail.clear(); g.head.clear(); unsigned m=r.below(g.n*2); for(unsigned i=0;i<m;++i) g.add(r.below(g.n),r.below(g.n)); } g.weight.assign(g.m(),1); }
	c.desc = big? vh::fmt("%s n=%u m=%u",g.kind.c_str(),g.n,g.m()) : g.show();
	auto cs=gen::csr(g);
	auto res=compute_strongly_connected_components(cs.first_out,cs.head); vh::beat();
	VH_EQ(res.component_of.size(),(size_t)g.n,"component_of size"); VH_REQUIRE(res.component_count<=g.n,"component count %u",res.component_count);
	std::vector<unsigned>size(res.component_count,0);
	for(unsigned x=0;x<g.n;++x){ VH_REQUIRE(res.component_of[x]<res.component_count,"component id of %u is %u",x,res.component_of[x]); ++size[res.component_of[x]]; }
	for(unsigned i=0;i<size.size();++i) VH_REQUIRE(size[i]>0,"component %u is empty",i);
	// independent: Kosaraju, iterative
	std::vector<unsigned>comp(g.n,~0u); unsigned k=0;
	{ std::vector<std::vector<unsigned>>rev(g.n); for(unsigned a=0;a<g.m();++a) rev[cs.head[a]].push_back(cs.tail[a]);
	  std::vector<unsigned>fin; std::vector<char>seen(g.n,0); std::vector<std::pair<unsigned,unsigned>>st;
	  for(unsigned s=0;s<g.n;++s) if(!seen[s]){ seen[s]=1; st.push_back({s,cs.first_out[s]}); while(!st.empty()){ auto&e=st.back(); if(e.second==cs.first_out[e.first+1]){ fin.push_back(e.first); st.pop_back(); } else { unsigned y=cs.head[e.second++]; if(!seen[y]){ seen[y]=1; st.push_back({y,cs.first_out[y]}); } } } }
	  for(unsigned i=g.n;i-->0;) if(comp[fin[i]]==~0u){ std::vector<unsigned>q{fin[i]}; comp[fin[i]]=k; while(!q.empty()){ unsigned x=q.back(); q.pop_back(); for(unsigned y:rev[x]) if(comp[y]==~0u){ comp[y]=k; q.push_back(y); } } ++k; } }
	VH_EQ(res.component_count,k,"number of components");
	std::vector<unsigned>to(k,~0u); for(unsigned x=0;x<g.n;++x){ if(to[comp[x]]==~0u) to[comp[x]]=res.component_of[x]; VH_EQ(res.component_of[x],to[comp[x]],"node %u is in the wrong component",x); }
	auto mask=compute_largest_strongly_connected_component(cs.first_out,cs.head);
	VH_EQ(mask.size(),(size_t)g.n,"mask size"); unsigned mx=0; for(unsigned s:size) mx=std::max(mx,s);
	unsigned cnt=0, id=~0u; for(unsigned x=0;x<g.n;++x) if(mask[x]){ ++cnt; if(id==~0u) id=comp[x]; VH_EQ(comp[x],id,"mask mixes components"); }
	VH_EQ(cnt,mx,"size of the marked component vs the largest");
	c.count("components",k); if(k>1 && mx>1) c.nontrivial(big?vh::mix(g.n*7+g.m()):g.hash());
}
static void*tr(void*p){ auto*q=(std::pair<vh::Case*,std::exception_ptr>*)p; try{ one(*q->first); }catch(...){ q->second=std::current_exception(); } return 0; }
void vh_case(vh::Case&c){
	// run on a small stack: deep graphs must not exhaust it
	pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 512*1024); pthread_t t; std::pair<vh::Case*,std::exception_ptr> q{&c,nullptr};
	if(pthread_create(&t,&a,tr,&q)!=0) throw std::runtime_error("pthread_create"); pthread_join(t,0); pthread_attr_destroy(&a);
	if(q.second) std::rethrow_exception(q.second);
	if(c.idx<2) c.sample(c.desc);
}
