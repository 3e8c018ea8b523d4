// C34: many reader threads with their own query objects on shared constant indexes, under ThreadSanitizer and natively.
// The shared objects are fresh when the threads start (a lazily built cache would race); afterwards the same work is repeated
// by a single thread and every answer has to be the same; distances are also compared with an independent Dijkstra.
#include "cchutil.h"
#include <routingkit/dijkstra.h>
#include <routingkit/geo_position_to_node.h>
#include <routingkit/id_mapper.h>
#include <routingkit/bit_vector.h>
#include <routingkit/strongly_connected_component.h>
#include <routingkit/nested_dissection.h>
#include <routingkit/inverse_vector.h>
#include <routingkit/graph_util.h>
#include <routingkit/sort.h>
#include <routingkit/permutation.h>
#include <routingkit/osm_profile.h>
#include <routingkit/vector_io.h>
#include <routingkit/osm_simple.h>
#include <routingkit/osm_graph_builder.h>
#include "pbf.h"
#include "osmmodel.h"
#include <thread>
#include <memory>
using namespace RoutingKit; using namespace gen; using namespace vh;

struct Shared{
	Graph g; std::vector<std::vector<uint64_t>> ref; std::vector<unsigned> sources;   // reference distances from some nodes
	ContractionHierarchy ch; std::unique_ptr<CustomizableContractionHierarchy> cch; std::unique_ptr<CustomizableContractionHierarchyMetric> metric; ContractionHierarchy perfect;
	ContractionHierarchyExtraWeight<unsigned> extra; std::vector<unsigned> hops;
	std::vector<unsigned> first_out, dt, dh, dw; GeoPositionToNode geo; BitVector bits; std::unique_ptr<IDMapper> ids; std::unique_ptr<LocalIDMapper> lids; TagMap tags; std::string dir, pbf;
};
static unsigned add1(unsigned a,unsigned b){ return a+b; }

template<class Q> static uint64_t queries(const Shared&s, Q&q, Rng&r, unsigned rounds, bool paths){
	uint64_t h=1; const Graph&g=s.g;
	for(unsigned k=0;k<rounds;++k){
		unsigned i=r.below(s.sources.size()), src=s.sources[i], t=r.below(g.n);
		if(r.chance(1,3)){
			std::vector<unsigned> pins; for(unsigned j=r.below(6)+1;j>0;--j) pins.push_back(r.below(g.n));
			q.reset(); q.pin_targets(pins); q.add_source(src).run_to_pinned_targets(); auto d=q.get_distances_to_targets();
			for(size_t j=0;j<pins.size();++j) VH_REQUIRE(d[j]==clampd(s.ref[i][pins[j]]),"thread: pinned distance %u -> %u is %u instead of %u",src,pins[j],d[j],clampd(s.ref[i][pins[j]]));
			h=hcombine(h,hvec(d));
		}else{
			q.reset(); q.add_source(src).add_target(t).run(); unsigned d=q.get_distance(); VH_REQUIRE(d==clampd(s.ref[i][t]),"thread: distance %u -> %u is %u instead of %u",src,t,d,clampd(s.ref[i][t]));
			h=hcombine(h,d); if(paths){ auto a=q.get_arc_path(); h=hcombine(h,hvec(a)); if(d<INF) check_walk(g,a,src,t,"thread"); h=hcombine(h,hvec(q.get_node_path())); }
		}
		if(r.chance(1,6)) std::this_thread::yield();
	}
	return h;
}
static const unsigned KINDS=12;
static const char*NAMES[KINDS]={"CH queries","CCH queries","Dijkstra","nearest neighbours","identifier mapping","own metric on a shared CCH","independent index construction","extra weight queries","perfect hierarchy queries","partial customization","profile and vector utilities","file loading and saving"};
static uint64_t work(const Shared&s, unsigned kind, uint64_t seed, unsigned rounds){
	Rng r(seed); uint64_t h=kind; const Graph&g=s.g;
	switch(kind){
		case 0:{ ContractionHierarchyQuery q(s.ch); h=queries(s,q,r,rounds,true); break; }
		case 1:{ CustomizableContractionHierarchyQuery q(*s.metric); h=queries(s,q,r,rounds,true); break; }
		case 2:{ Dijkstra d(s.first_out,s.dt,s.dh); ScalarGetWeight w(s.dw); for(unsigned k=0;k<rounds/2+1;++k){ unsigned i=r.below(s.sources.size()); d.reset().add_source(s.sources[i]); while(!d.is_finished()) h=hcombine(h,d.settle(w).node); for(unsigned t=0;t<g.n;++t){ VH_REQUIRE(clampd(d.get_distance_to(t))==clampd(s.ref[i][t]),"thread: Dijkstra distance"); } h=hcombine(h,hvec(d.get_arc_path_to(r.below(g.n)))); } break; }
		case 3: for(unsigned k=0;k<rounds*3;++k){ float la=r.real(-60,60), lo=r.real(-100,100), rad=r.pick({10.0f,1e5f,1e6f,1e7f}); auto x=s.geo.find_nearest_neighbor_within_radius(la,lo,rad); h=hcombine(h,x.id); auto v=s.geo.find_all_nodes_within_radius(la,lo,rad); for(auto&y:v) h=hcombine(h,y.id); } break;
		case 4: for(unsigned k=0;k<rounds*10;++k){ uint64_t x=r.below(s.bits.size()); bool b=s.bits.is_set(x); h=hcombine(h,b); h=hcombine(h,s.ids->to_local(x,invalid_id)); h=hcombine(h,s.lids->to_local(x,7)); if(b) VH_EQ(s.ids->to_global(s.ids->to_local(x)),x,"thread: identifier mapping"); } h=hcombine(h,s.bits.population_count()); break;
		case 5:{ CustomizableContractionHierarchyMetric m(*s.cch,g.weight); m.customize(); CustomizableContractionHierarchyQuery q(m); h=queries(s,q,r,rounds,false); auto p=m.build_contraction_hierarchy_using_perfect_witness_search(); ContractionHierarchyQuery q2(p); h=hcombine(h,queries(s,q2,r,rounds,false)); break; }
		case 6:{ auto ch=ContractionHierarchy::build(g.n,g.tail,g.head,g.weight); ContractionHierarchyQuery q(ch); h=queries(s,q,r,rounds/2+1,false);
			auto o=compute_nested_node_dissection_order_using_inertial_flow(g.n,g.tail,g.head,g.lat,g.lon); h=hcombine(h,hvec(o)); CustomizableContractionHierarchy c2(o,g.tail,g.head,[](const std::string&){},r.chance(1,2)); CustomizableContractionHierarchyMetric m(c2,g.weight); m.customize(); CustomizableContractionHierarchyQuery q2(m); h=hcombine(h,queries(s,q2,r,rounds/2+1,true));
			auto scc=compute_largest_strongly_connected_component(s.first_out,s.dh); h=hcombine(h,hvec(scc)); GeoPositionToNode gp(g.lat,g.lon); h=hcombine(h,gp.find_nearest_neighbor_within_radius(0,0,1e7f).id); break; }
		case 7:{ ContractionHierarchyQuery q(s.ch); for(unsigned k=0;k<rounds;++k){ unsigned a=r.pick(s.sources),b=r.below(g.n); q.reset().add_source(a).add_target(b).run(); if(q.get_distance()<INF){ unsigned x=q.get_extra_weight_distance(s.extra,add1); VH_EQ((size_t)x,q.get_arc_path().size(),"thread: hops of a path"); h=hcombine(h,x); } } break; }
		case 8:{ ContractionHierarchyQuery q(s.perfect); h=queries(s,q,r,rounds,true); break; }
		case 9:{ auto w=g.weight; for(auto&x:w) if(r.chance(1,2)&&x<INF) x=x/2; CustomizableContractionHierarchyMetric m(*s.cch,w); m.customize(); CustomizableContractionHierarchyPartialCustomization p(*s.cch); for(unsigned a=0;a<g.m();++a) if(w[a]!=g.weight[a]){ w[a]=g.weight[a]; p.update_arc(a); } p.customize(m); CustomizableContractionHierarchyQuery q(m); h=queries(s,q,r,rounds,true); break; }
		case 11:{ // every thread reads the same map and uses files of its own
			static std::atomic<unsigned> unique(0); const std::string fn=s.dir+fmt("/t%u",unique.fetch_add(1));
			auto map=load_osm_id_mapping_from_pbf(s.pbf,nullptr,[](uint64_t id,const TagMap&t){ return t["highway"]!=nullptr||id%3!=0; },nullptr,r.chance(1,2)); h=hcombine(h,map.is_routing_node.population_count()); h=hcombine(h,map.is_modelling_node.population_count());
			auto og=load_osm_routing_graph_from_pbf(s.pbf,map,[](uint64_t id,unsigned,const TagMap&){ return id%3?OSMWayDirectionCategory::open_in_both:OSMWayDirectionCategory::only_open_forwards; },nullptr,nullptr,false,r.chance(1,2)?OSMRoadGeometry::uncompressed:OSMRoadGeometry::none);
			h=hcombine(h,hvec(og.first_out)); h=hcombine(h,hvec(og.head)); h=hcombine(h,hvec(og.geo_distance)); h=hcombine(h,hvec(og.way)); for(auto x:og.latitude) h=hcombine(h,(uint64_t)(int64_t)(x*1e5f)); h=hcombine(h,og.modelling_node_latitude.size());
			save_vector(fn,og.head); auto v=load_vector<unsigned>(fn); VH_REQUIRE(v==og.head,"thread: saved vector"); save_vector(fn,std::vector<std::string>{"a","","xyz"}); VH_EQ(load_vector<std::string>(fn).size(),(size_t)3,"thread: saved strings"); save_bit_vector(fn,s.bits); VH_REQUIRE(load_bit_vector(fn)==s.bits,"thread: saved bits");
			s.ch.save_file(fn); auto ch=ContractionHierarchy::load_file(fn); unlink(fn.c_str()); ContractionHierarchyQuery q(ch); h=hcombine(h,queries(s,q,r,rounds/2+1,true)); break; }
		default:{ for(unsigned k=0;k<rounds;++k){ h=hcombine(h,is_osm_way_used_by_cars(k,s.tags)); h=hcombine(h,get_osm_way_speed(k,s.tags)); h=hcombine(h,hstr(get_osm_way_name(k,s.tags))); h=hcombine(h,get_osm_way_bicycle_comfort_level(k,s.tags)); }
			auto tt=g.tail; auto p=compute_inverse_sort_permutation_first_by_tail_then_by_head_and_apply_sort_to_tail(g.n,tt,g.head); h=hcombine(h,hvec(p)); auto inv=invert_vector(s.dt,g.n); h=hcombine(h,hvec(inv)); h=hcombine(h,hvec(compute_stable_sort_permutation_using_key(g.head,g.n,[](unsigned x){return x;}))); }
	}
	return h;
}

void vh_case(Case&c){
	Rng&r=c.rng; bool tsan=c.is_tsan(); Shared s;
	Opt o; o.size_class=c.idx%6==0?2:r.chance(1,3)?0:1; o.allow_inf=o.allow_huge=true; o.allow_empty=false; s.g=graph(r,o); Graph&g=s.g; g.lat.resize(g.n); g.lon.resize(g.n); for(unsigned i=0;i<g.n;++i){ g.lat[i]=r.real(-60,60); g.lon[i]=r.real(-100,100); }
	c.desc=g.show();
	for(unsigned i=0;i<8;++i) s.sources.push_back(r.below(g.n)); { Adj adj(g); for(auto x:s.sources) s.ref.push_back(dists(g,adj,{{x,0}})); }
	unsigned mask=0; unsigned nk=1+r.below(4); for(unsigned i=0;i<nk;++i) mask|=1u<<r.below(KINDS);
	std::vector<unsigned> kinds; for(unsigned k=0;k<KINDS;++k) if(mask>>k&1) kinds.push_back(k);
	s.ch=build_ch(c,g); s.cch.reset(new CustomizableContractionHierarchy(build_cch(c,g))); s.metric.reset(new CustomizableContractionHierarchyMetric(*s.cch,g.weight)); s.metric->customize();
	if(mask>>8&1){ CustomizableContractionHierarchyMetric m2(*s.cch,g.weight); s.perfect=m2.build_contraction_hierarchy_using_perfect_witness_search(); }
	s.hops.assign(g.m(),1); if(mask>>7&1) s.extra.reset(s.ch,s.hops,add1);
	{ auto p=compute_inverse_sort_permutation_first_by_tail_then_by_head_and_apply_sort_to_tail(g.n,s.dt=g.tail,g.head); s.dh=apply_inverse_permutation(p,g.head); s.dw=apply_inverse_permutation(p,g.weight); s.first_out=invert_vector(s.dt,g.n); }
	s.geo=GeoPositionToNode(g.lat,g.lon); s.bits=BitVector(1+r.below(5000)); for(uint64_t i=0;i<s.bits.size();++i) s.bits.set(i,r.chance(1,3)); s.ids.reset(new IDMapper(s.bits)); s.lids.reset(new LocalIDMapper(s.bits));
	static const char*K[]={"highway","maxspeed","name","ref","oneway"}; static const char*V[]={"residential","DE:urban;30 mph","Main","L 1","yes"}; s.tags.build(5,[](unsigned i){return K[i];},[](unsigned i){return V[i];});
	if(mask>>11&1){ osmm::Net n=osmm::make_net(r,1+r.below(8),0.001,48.9,8.4,false); auto order=n.file_order(r,r.chance(1,2)); pbf::Writer w; w.r=&r; s.dir=c.scratch; s.pbf=c.scratch+"/m.pbf"; pbf::write_file(s.pbf,w.file(pbf::layout(order,r),false)); }
	unsigned nt=2+r.below(tsan?4:7), rounds=tsan?6:30; std::vector<unsigned> kind(nt); std::vector<uint64_t> seed(nt), got(nt), again(nt); std::vector<std::string> err(nt);
	for(unsigned i=0;i<nt;++i){ kind[i]=r.pick(kinds); seed[i]=r.chance(1,4)&&i?seed[i-1]:r.next(); } c.desc+=fmt(" | %u threads",nt); for(auto k:kind) c.desc+=std::string(" ")+NAMES[k];
	std::atomic<unsigned> ready(0); std::vector<std::thread> th;
	for(unsigned i=0;i<nt;++i) th.emplace_back([&,i]{ ready.fetch_add(1,std::memory_order_relaxed); while(ready.load(std::memory_order_relaxed)<nt) std::this_thread::yield(); try{ got[i]=work(s,kind[i],seed[i],rounds); }catch(std::exception&e){ err[i]=e.what(); } });
	for(auto&t:th) t.join();
	for(unsigned i=0;i<nt;++i) VH_REQUIRE(err[i].empty(),"concurrent %s: %s",NAMES[kind[i]],err[i].c_str());
	for(unsigned i=0;i<nt;++i){ again[i]=work(s,kind[i],seed[i],rounds); VH_REQUIRE(again[i]==got[i],"%s gave other answers concurrently than alone",NAMES[kind[i]]); c.count(std::string("concurrent ")+NAMES[kind[i]]); }
	c.count("threads",nt); c.nontrivial(hcombine(g.hash(),hvec(kind))); c.sample(c.desc.substr(c.desc.rfind('|')));
}
