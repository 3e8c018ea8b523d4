// C09: parallel customization; native OpenMP under rel, pthread stand-in under ThreadSanitizer
#include "cchutil.h"
#include <thread>
#include <memory>
using namespace RoutingKit; using namespace gen; using namespace vh;
extern "C"{ __attribute__((weak)) extern uint64_t vh_gomp_regions, vh_gomp_chunks, vh_gomp_threads, vh_gomp_delay_seed, vh_gomp_schedule_hash; }
static Graph big(Rng&r, bool thorough){
	Graph g; unsigned k=r.below(4), L=thorough?110:70;
	if(k<=1){ unsigned w=r.in(25,L),h=r.in(25,L); g.n=w*h; g.kind="big grid"; g.lat.resize(g.n); g.lon.resize(g.n);
		for(unsigned y=0;y<h;++y) for(unsigned x=0;x<w;++x){ unsigned i=y*w+x; g.lat[i]=48+0.01*y; g.lon[i]=8+0.01*x; auto road=[&](unsigned j){ if(r.chance(9,10)){ g.add(i,j); if(r.chance(9,10)) g.add(j,i);} }; if(x+1<w) road(i+1); if(y+1<h) road(i+w); } }
	else if(k==2){ // wide shallow: many nodes below a small dense core, first level very large
		unsigned core=r.in(4,24), leaves=r.in(300,2000); g.n=core+leaves; g.kind="hub"; for(unsigned i=0;i<core;++i) for(unsigned j=0;j<core;++j) if(i!=j&&r.chance(1,2)) g.add(i,j);
		for(unsigned i=0;i<leaves;++i){ unsigned d=r.in(2,4); for(unsigned j=0;j<d;++j){ unsigned c=r.below(core); g.add(core+i,c); g.add(c,core+i);} } g.lat.assign(g.n,0); g.lon.assign(g.n,0); }
	else { // caterpillar bundle
		unsigned p=r.in(20,60), len=r.in(10,40); g.n=p*len; g.kind="bundle"; for(unsigned i=0;i<p;++i) for(unsigned j=0;j+1<len;++j){ g.add(i*len+j,i*len+j+1); g.add(i*len+j+1,i*len+j);} for(unsigned i=0;i<p*3;++i) g.add(r.below(p)*len, r.below(p)*len); for(unsigned i=0;i<p*3;++i) g.add(r.below(p)*len+len-1, r.below(p)*len+len-1); g.lat.assign(g.n,0); g.lon.assign(g.n,0); }
	new_weights(r,g); return g;
}
static void verify(Case&c, const Ref&R, const CustomizableContractionHierarchyMetric&m, const CustomizableContractionHierarchyMetric&seq, const char*what){
	Rng&r=c.rng; CustomizableContractionHierarchyQuery q(m), qs(seq); uint64_t om=offset_limit(R.g); std::vector<unsigned>all(R.g.n); for(unsigned i=0;i<R.g.n;++i) all[i]=i;
	q.pin_targets(all); qs.pin_targets(all);
	for(unsigned i=0;i<(R.g.n<=30?R.g.n:4);++i){
		unsigned s=R.g.n<=30?i:r.below(R.g.n); if(i){ q.reset_source(); qs.reset_source(); }
		q.add_source(s).run_to_pinned_targets(); qs.add_source(s).run_to_pinned_targets(); auto a=q.get_distances_to_targets(), b=qs.get_distances_to_targets(); auto d=R.from({{s,0}});
		for(unsigned t=0;t<R.g.n;++t) VH_REQUIRE(a[t]==b[t]&&a[t]==clampd(d[t]), "%s: %u->%u is %u, sequential %u, true %u", what, s,t,a[t],b[t],clampd(d[t]));
		c.count("pairs compared",R.g.n);
	}
	for(unsigned i=0;i<6;++i){ auto S=random_ends(r,R.g,2,om),T=random_ends(r,R.g,2,om); q.reset(); ref_point_query(c,R,q,S,T,what); check_paths(c,R.g,q,S,T,best_to(R.from(S),T),what); }
}
// All threads improve the same few arcs at the same time: P pairs of hubs, every block of 256 work items visits each pair once.
static void contended(Case&c){
	Rng&r=c.rng; Graph g; const unsigned P=r.pick({2u,16u,128u}), B=128*r.in(16,64), threads=r.pick({4u,8u,8u,16u}), rounds=c.thorough?400:120; g.n=B+2*P; g.kind=fmt("%u contended arcs",P);
	std::vector<unsigned>order(g.n); for(unsigned i=0;i<g.n;++i) order[i]=i; g.lat.assign(g.n,0); g.lon.assign(g.n,0);
	for(unsigned i=0;i<B;++i){ unsigned p=i%P; g.add(B+2*p,i); g.add(i,B+2*p+1); if(r.chance(1,2)){ g.add(B+2*p+1,i); g.add(i,B+2*p); } }
	g.weight.assign(g.m(),1); c.desc=g.show()+fmt(" threads %u",threads);
	CustomizableContractionHierarchy cch(order,g.tail,g.head,[](const std::string&){},false); CustomizableContractionHierarchyParallelization par(cch); CustomizableContractionHierarchyMetric m(cch,g.weight); CustomizableContractionHierarchyQuery q(m);
	for(unsigned k=0;k<rounds;++k){
		unsigned mode=r.below(3); for(unsigned a=0;a<g.m();++a){ unsigned i=std::min(g.tail[a],g.head[a]); g.weight[a]=mode==0?1000000-50*(i/P)-r.below(100):mode==1?r.below(1000000000):1+r.below(100000); }
		std::vector<uint64_t> best(2*P,INF64); std::vector<uint64_t> in0(B,INF64),in1(B,INF64);
		for(unsigned a=0;a<g.m();++a) if(g.tail[a]>=B){ if((g.tail[a]-B)%2==0) in0[g.head[a]]=g.weight[a]; else in1[g.head[a]]=g.weight[a]; }
		for(unsigned a=0;a<g.m();++a) if(g.tail[a]<B){ unsigned p=(g.head[a]-B)/2; if((g.head[a]-B)%2==1) best[2*p]=std::min(best[2*p],in0[g.tail[a]]+g.weight[a]); else best[2*p+1]=std::min(best[2*p+1],in1[g.tail[a]]+g.weight[a]); }
		par.customize(m,threads);
		for(unsigned p=0;p<P;++p) for(unsigned d=0;d<2;++d){ unsigned s=B+2*p+d, t=B+2*p+1-d; q.reset().add_source(s).add_target(t).run(); VH_REQUIRE(q.get_distance()==clampd(best[2*p+d]),"round %u with %u threads: contended arc %u->%u is %u instead of %u",k,threads,s,t,q.get_distance(),clampd(best[2*p+d])); }
		c.count("contended customizations"); if(k%20==0) beat();
	}
	c.nontrivial(hcombine(g.hash(),threads));
}
void vh_case(Case&c){
	Rng&r=c.rng; Graph g; bool tsan=c.is_tsan();
	if(!tsan && c.idx%10==3){ contended(c); return; }
	if(c.idx%(tsan?2:4)==0) g=big(r,c.thorough); else { Opt o; o.size_class=c.idx%5==0?2:1; o.allow_inf=o.allow_huge=true; o.allow_empty=false; g=graph(r,o); }
	c.desc=g.show();
	if(&vh_gomp_delay_seed) vh_gomp_delay_seed=r.next();
	auto cch=build_cch(c,g);
	CustomizableContractionHierarchyParallelization par(cch);
	std::string d0=c.desc;
	for(unsigned k=0,n=r.in(1,3);k<n;++k){
		if(k) new_weights(r,g);
		unsigned threads=tsan?r.pick({1u,2u,3u,4u,8u}):r.pick({1u,2u,3u,4u,5u,7u,8u,16u,33u,64u}); c.desc=d0+fmt(" metric %u threads %u",k,threads);
		Ref R(g); CustomizableContractionHierarchyMetric seq(cch,g.weight); seq.customize();
		CustomizableContractionHierarchyMetric m(cch,g.weight);
		if(r.chance(1,4)) m.customize(); // earlier content must not matter
		if(&vh_gomp_schedule_hash) vh_gomp_schedule_hash=0;
		if(r.chance(1,8)) par.customize(m); else par.customize(m,threads);
		if(&vh_gomp_schedule_hash) c.nontrivial(hcombine(g.hash(),vh_gomp_schedule_hash)); else if(g.m()>20) c.nontrivial(hcombine(g.hash(),threads));
		c.count("parallel customizations"); verify(c,R,m,seq,"parallel");
		beat();
	}
	if(r.chance(1,3)){ // one parallelization object, several metrics at the same time
		unsigned k=r.in(2,3); c.desc=d0+fmt(" concurrent metrics %u",k);
		std::vector<std::unique_ptr<Graph>>gs; std::vector<std::unique_ptr<CustomizableContractionHierarchyMetric>>ms;
		for(unsigned i=0;i<k;++i){ gs.emplace_back(new Graph(g)); new_weights(r,*gs[i]); ms.emplace_back(new CustomizableContractionHierarchyMetric(cch,gs[i]->weight)); }
		std::vector<std::thread>th; for(unsigned i=0;i<k;++i) th.emplace_back([&,i]{ par.customize(*ms[i],2+i); });
		for(auto&t:th) t.join();
		for(unsigned i=0;i<k;++i){ Ref R(*gs[i]); CustomizableContractionHierarchyMetric seq(cch,gs[i]->weight); seq.customize(); verify(c,R,*ms[i],seq,"concurrent parallel"); }
		c.count("concurrent customizations",k);
	}
	if(&vh_gomp_regions){ c.count("monitored parallel regions",vh_gomp_regions); c.count("monitored work chunks",vh_gomp_chunks); c.count("monitored threads",vh_gomp_threads); vh_gomp_regions=vh_gomp_chunks=vh_gomp_threads=0; }
	if(g.m()>8) c.sample(c.desc);
}
