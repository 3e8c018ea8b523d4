// C35: degenerate graphs through every index, build option and logger setting.
#include "cchutil.h"
#include <routingkit/dijkstra.h>
#include <routingkit/geo_position_to_node.h>
#include <routingkit/id_mapper.h>
#include <routingkit/bit_vector.h>
#include <routingkit/strongly_connected_component.h>
#include <routingkit/inverse_vector.h>
#include <routingkit/graph_util.h>
#include <routingkit/tag_map.h>
#include <sstream>
#include <memory>
using namespace RoutingKit; using namespace gen; using namespace vh;

static Graph degenerate(Rng&r){
	Graph g; g.n=r.pick({0u,0u,1u,1u,2u,3u,5u,40u,513u}); unsigned k=r.below(7), m=r.pick({1u,2u,7u,64u});
	static const char*names[]={"no arcs","only loops","only infinite","one bundle of parallel arcs","only zero","parallel both ways and loops","isolated nodes around one arc"}; g.kind=names[k];
	if(g.n) switch(k){
		case 0: break;
		case 1: for(unsigned i=0;i<m;++i){ unsigned v=r.below(g.n); g.add(v,v); g.weight.push_back(r.chance(1,3)?0:r.below(100)); } break;
		case 2: for(unsigned i=0;i<m;++i){ g.add(r.below(g.n),r.below(g.n)); g.weight.push_back(INF); } break;
		case 3:{ unsigned a=r.below(g.n), b=r.below(g.n); for(unsigned i=0;i<m;++i){ g.add(a,b); g.weight.push_back(r.below(5)); } break; }
		case 4: for(unsigned i=0;i<m;++i){ g.add(r.below(g.n),r.below(g.n)); g.weight.push_back(0); } break;
		case 5:{ unsigned a=r.below(g.n), b=r.below(g.n); for(unsigned i=0;i<m;++i){ unsigned q=r.below(4); if(q<2) g.add(a,b); else if(q==2) g.add(b,a); else g.add(a,a); g.weight.push_back(r.chance(1,4)?INF:r.below(4)); } break; }
		default: g.add(r.below(g.n),r.below(g.n)); g.weight.push_back(r.below(3)==0?INF-1:r.below(10));
	}
	g.lat.assign(g.n,0); g.lon.assign(g.n,0); unsigned cm=r.below(3); for(unsigned i=0;i<g.n;++i){ if(cm==1){ g.lat[i]=90; g.lon[i]=180; } if(cm==2){ g.lat[i]=r.real(-90,90); g.lon[i]=r.real(-180,180); } }
	return g;
}
static std::vector<unsigned> sample_nodes(Rng&r,const Graph&g){ std::vector<unsigned> v; if(g.n<=6){ for(unsigned i=0;i<g.n;++i) v.push_back(i); } else { for(unsigned a=0;a<g.m()&&a<4;++a){ v.push_back(g.tail[a]); v.push_back(g.head[a]); } for(int i=0;i<3;++i) v.push_back(r.below(g.n)); } return v; }

// every use a query object has, on a graph where the answers are trivial
template<class Q> static void drive(Case&c,const Ref&R,Q&q,const char*what){
	Rng&r=c.rng; const Graph&g=R.g; q.reset(); auto nodes=sample_nodes(r,g); bool first=true;
	for(auto s:nodes) for(auto t:nodes){ if(!first||r.chance(1,2)) q.reset(); first=false; ref_point_query(c,R,q,{{s,0}},{{t,0}},what); check_paths(c,g,q,{{s,0}},{{t,0}},best_to(R.from({{s,0}}),{{t,0}}),what); }
	for(int tt=0;tt<2;++tt){
		std::vector<unsigned> pins=nodes; if(r.chance(1,3)) pins.clear();
		q.reset(); if(tt) q.pin_targets(pins); else q.pin_sources(pins);
		bool again=false; for(auto s:nodes){ if(again){ if(tt) q.reset_source(); else q.reset_target(); } again=true; ref_pinned_run(c,R,q,tt,pins,{{s,0}},what); }
	}
	q.reset(); Q q2(q), q3(std::move(q2)); q=q3; q3=Q(); c.count(std::string("driven ")+what);
}
void vh_case(Case&c){
	Rng&r=c.rng; Graph g=degenerate(r); unsigned logmode=r.below(3); c.desc=g.show()+fmt(" log mode %u ",logmode); std::string d0=c.desc; Ref R(g); unsigned logged=0;
	std::function<void(std::string)> chlog; if(logmode==1) chlog=[&](std::string s){ logged+=s.size()>0; };
	std::function<void(const std::string&)> lg; if(logmode) lg=[&](const std::string&s){ logged+=s.size()>0; };
	std::vector<unsigned> order=random_order(r,g.n);
	if(g.n==0) c.count("graphs without nodes");
	c.count(g.kind);
	unsigned which=r.below(5);
	if(which==0){ // contraction hierarchy
		unsigned mp=r.pick({500u,0u,1u}), v=r.below(3); c.desc=d0+fmt("CH variant %u pops %u",v,mp);
		ContractionHierarchy ch; 
		if(v==0) ch=ContractionHierarchy::build(g.n,g.tail,g.head,g.weight,chlog,mp); else if(v==1) ch=ContractionHierarchy::build_given_order(order,g.tail,g.head,g.weight,chlog,mp); else ch=ContractionHierarchy::build_given_rank(order,g.tail,g.head,g.weight,chlog,mp);
		VH_EQ(ch.node_count(),g.n,"CH node count");
		if(r.chance(1,2)){ ContractionHierarchy a(ch); ch=ContractionHierarchy(); ch=std::move(a); }
		if(r.chance(1,2)){ std::stringstream ss; ch.write(ss); std::string s=ss.str(); std::istringstream in(s); ch=ContractionHierarchy::read(in,s.size()); std::ostringstream o2; ch.write(o2); VH_REQUIRE(o2.str()==s,"reloaded hierarchy differs"); c.count("hierarchies reloaded"); }
		if(r.chance(1,3)){ std::string f=c.scratch+"/d.ch"; ch.save_file(f); ch=ContractionHierarchy::load_file(f); unlink(f.c_str()); }
		std::unique_ptr<ContractionHierarchyQuery> q; if(r.chance(1,2)) q.reset(new ContractionHierarchyQuery(ch)); else { q.reset(new ContractionHierarchyQuery); q->reset(ch); }
		drive(c,R,*q,"CH");
		std::vector<unsigned> ew(g.m(),1); SaturatedWeightAddition add; ContractionHierarchyExtraWeight<unsigned> x(ch,ew,add); x.reset(ch,ew,add);
		for(unsigned k=0;k<3&&g.n;++k){ unsigned s=r.below(g.n), t=r.below(g.n); q->reset().add_source(s).add_target(t).run(); if(q->get_distance()<INF) VH_EQ((size_t)q->get_extra_weight_distance(x,add),q->get_arc_path().size(),"extra weight"); }
	}else if(which==1){ // customizable contraction hierarchy
		bool filter=r.chance(1,2); c.desc=d0+fmt("CCH filter %d",filter);
		CustomizableContractionHierarchy cch = (logmode==2)?CustomizableContractionHierarchy(order,g.tail,g.head):CustomizableContractionHierarchy(order,g.tail,g.head,lg,filter);
		VH_EQ(cch.node_count(),g.n,"CCH node count"); VH_EQ(cch.input_arc_count(),g.m(),"CCH input arcs");
		if(r.chance(1,2)){ CustomizableContractionHierarchy a(cch); cch=CustomizableContractionHierarchy(); cch=std::move(a); }
		CustomizableContractionHierarchyMetric m; if(r.chance(1,2)) m.reset(cch,g.weight); else m=CustomizableContractionHierarchyMetric(cch,g.weight.data());
		unsigned how=r.below(4); c.desc+=fmt(" customization %u",how);
		if(how==0) m.customize(); else if(how==1){ CustomizableContractionHierarchyParallelization p(cch); p.customize(m,r.pick({1u,2u,5u})); p.customize(m); } else if(how==2){ m.customize(); CustomizableContractionHierarchyPartialCustomization p(cch); if(r.chance(1,2)) p.customize(m); p.reset(); for(unsigned a=0;a<g.m();++a) p.update_arc(a); p.customize(m); }
		else { auto w=g.weight; for(auto&x:w) x=7; m.reset(w); m.customize(); m.reset(g.weight); m.customize(); }
		CustomizableContractionHierarchyQuery q(m); drive(c,R,q,"CCH");
		CustomizableContractionHierarchyMetric m2(cch,g.weight); auto pch=m2.build_contraction_hierarchy_using_perfect_witness_search(); ContractionHierarchyQuery pq(pch); drive(c,R,pq,"perfect CH");
	}else if(which==2){ // orders
		c.desc=d0+"nested dissection"; auto o= logmode==2? compute_nested_node_dissection_order_using_inertial_flow(g.n,g.tail,g.head,g.lat,g.lon) : compute_nested_node_dissection_order_using_inertial_flow(g.n,g.tail,g.head,g.lat,g.lon,lg);
		auto so=o; std::sort(so.begin(),so.end()); VH_EQ(so.size(),(size_t)g.n,"order size"); for(unsigned i=0;i<g.n;++i) VH_EQ(so[i],i,"order is no permutation");
		auto f=make_graph_fragment(g.n,g.tail,g.head); VH_EQ(f.node_count(),g.n,"fragment"); auto cc=decompose_graph_fragment_into_connected_components(f); unsigned sum=0; for(auto&x:cc){ sum+=x.node_count(); VH_REQUIRE(x.node_count()>0||g.n==0,"empty component"); } VH_EQ(sum,g.n,"components");
		CustomizableContractionHierarchy cch(o,g.tail,g.head); CustomizableContractionHierarchyMetric m(cch,g.weight); m.customize(); CustomizableContractionHierarchyQuery q(m); drive(c,R,q,"CCH on nested dissection"); 
	}else if(which==3){ // plain graph algorithms
		c.desc=d0+"graph algorithms"; auto t=g.tail; auto p=compute_inverse_sort_permutation_first_by_tail_then_by_head_and_apply_sort_to_tail(g.n,t,g.head); auto h=apply_inverse_permutation(p,g.head), w=apply_inverse_permutation(p,g.weight); auto fo=invert_vector(t,g.n);
		VH_EQ(fo.size(),(size_t)g.n+1,"first_out"); VH_REQUIRE(fo.front()==0&&fo.back()==g.m(),"first_out bounds");
		auto back=invert_inverse_vector(fo); VH_REQUIRE(back==t,"tail from first_out");
		Dijkstra d(fo,t,h); Dijkstra d2; d2.reset(fo,t,h); ScalarGetWeight gw(w);
		for(auto s:sample_nodes(r,g)){ Dijkstra&x=r.chance(1,2)?d:d2; x.reset(); VH_REQUIRE(x.is_finished(),"fresh Dijkstra is not finished"); x.add_source(s); while(!x.is_finished()) x.settle(gw); auto ref=R.from({{s,0}}); for(unsigned v=0;v<g.n;++v) VH_EQ(clampd(x.get_distance_to(v)),clampd(ref[v]),"Dijkstra %u -> %u",s,v); c.count("driven Dijkstra"); }
		auto scc=compute_strongly_connected_components(fo,h); VH_EQ(scc.component_of.size(),(size_t)g.n,"components"); VH_REQUIRE(g.n?scc.component_count>=1&&scc.component_count<=g.n:scc.component_count==0,"component count %u",scc.component_count);
		auto big=compute_largest_strongly_connected_component(fo,h); VH_EQ(big.size(),(size_t)g.n,"largest component"); unsigned cnt=0; for(bool b:big) cnt+=b; VH_REQUIRE((cnt>0)==(g.n>0),"largest component has %u nodes",cnt); c.count("components computed");
		if(g.m()){ std::vector<unsigned> one(1,r.below(g.m())); auto np=convert_arc_path_to_node_path(t[one[0]],h,one); VH_REQUIRE(np.size()==2&&np[0]==t[one[0]]&&np[1]==h[one[0]],"path of one arc"); }
	}else{ // containers and spatial index
		c.desc=d0+"containers"; GeoPositionToNode geo(g.lat,g.lon), geo2; geo2=geo; VH_EQ(geo2.point_count(),g.n,"points");
		for(float rad:{0.0f,1.0f,3e7f}){ auto x=geo2.find_nearest_neighbor_within_radius(0,0,rad); VH_REQUIRE(x.id==invalid_id||x.id<g.n,"nearest id"); auto v=geo.find_all_nodes_within_radius(0,0,rad); VH_REQUIRE(v.size()<=g.n,"too many nodes"); if(rad>2.5e7f) VH_EQ(v.size(),(size_t)g.n,"nodes in a radius around everything"); }
		if(g.n==0){ GeoPositionToNode e; VH_REQUIRE(e.find_nearest_neighbor_within_radius(1,2,1e7f).id==invalid_id&&e.find_all_nodes_within_radius(1,2,1e7f).empty(),"empty index"); }
		BitVector b(g.n); if(r.chance(1,2)&&g.n) b.set_all(); unsigned pop=b.population_count(); VH_REQUIRE(pop==0||pop==g.n,"population"); BitVector e, e2(e); e=b; e2=~b; VH_EQ(e2.population_count()+pop,(uint64_t)g.n,"complement"); e.resize(0); VH_EQ(e.population_count(),(uint64_t)0,"emptied"); e.resize(g.n,true); VH_EQ(e.population_count(),(uint64_t)g.n,"resized");
		LocalIDMapper l(b); IDMapper i(b); VH_EQ(l.local_id_count(),(uint64_t)pop,"local ids"); VH_EQ(i.local_id_count(),(uint64_t)pop,"local ids"); for(unsigned k=0;k<pop;++k) VH_REQUIRE(i.to_global(k)==k&&l.to_local(k)==k,"identity mapping"); for(unsigned k=0;k<g.n&&!pop;++k) VH_REQUIRE(l.to_local(k,77)==77,"unmapped id");
		LocalIDMapper l0; IDMapper i0; VH_EQ(l0.local_id_count()+i0.local_id_count(),(uint64_t)0,"default mappers"); TagMap tm; VH_REQUIRE(tm["x"]==nullptr&&tm.size()==0,"empty tag map"); c.count("containers");
	}
	if(logmode==1&&logged) c.count("log messages",logged);
	if(logmode==0) c.count("without logger");
	c.nontrivial(hcombine(hcombine(g.hash(),which),logmode)); if(g.m()) c.sample(c.desc);
}
