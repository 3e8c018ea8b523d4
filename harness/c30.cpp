// C30: one-call OSM loaders against (a) the composition of the building blocks and (b) an independent model of the road network.
#include "vh.h"
#include "pbf.h"
#include "osmmodel.h"
#include "profmodel.h"
#include "proftags.h"
#include <routingkit/osm_simple.h>
#include <routingkit/osm_graph_builder.h>
#include <routingkit/osm_profile.h>
#include <routingkit/constants.h>
using namespace RoutingKit;
using namespace vh;
using namespace osmm;

typedef std::function<void(const std::string&)> Log;
struct Got{ std::vector<unsigned> first_out, head, geo, time, ff, ft; std::vector<float> lat, lon; std::vector<unsigned char> comfort; };
template<class G> static Got common(const G&g){ Got x; x.first_out=g.first_out; x.head=g.head; x.geo=g.geo_distance; x.lat=g.latitude; x.lon=g.longitude; VH_EQ((size_t)g.arc_count(),g.head.size(),"arc_count()"); VH_EQ((size_t)g.node_count()+1,g.first_out.size(),"node_count()"); return x; }
static Got load(int kind,const std::string&fn,Log lg,bool all,bool hint){
	if(kind==0){ auto g=simple_load_osm_car_routing_graph_from_pbf(fn,lg,all,hint); Got x=common(g); x.time=g.travel_time; x.ff=g.forbidden_turn_from_arc; x.ft=g.forbidden_turn_to_arc; return x; }
	if(kind==1){ auto g=simple_load_osm_bicycle_routing_graph_from_pbf(fn,lg,all,hint); Got x=common(g); x.comfort=g.arc_comfort_level; return x; }
	auto g=simple_load_osm_pedestrian_routing_graph_from_pbf(fn,lg,all,hint); return common(g);
}
static bool same(const Got&a,const Got&b){ return a.first_out==b.first_out&&a.head==b.head&&a.geo==b.geo&&a.time==b.time&&a.ff==b.ff&&a.ft==b.ft&&a.lat==b.lat&&a.lon==b.lon&&a.comfort==b.comfort; }

static unsigned want_time(unsigned geo,unsigned speed){ uint64_t t=(uint64_t)geo*3600/speed; return t>=inf_weight?inf_weight:(unsigned)t; }

static bool match(size_t n,const std::function<bool(size_t,size_t)>&ok){
	std::vector<int> to(n,-1); std::function<bool(size_t,std::vector<char>&)> aug=[&](size_t i,std::vector<char>&vis){ for(size_t j=0;j<n;++j) if(!vis[j]&&ok(i,j)){ vis[j]=1; if(to[j]<0||aug(to[j],vis)){ to[j]=i; return true; } } return false; };
	for(size_t i=0;i<n;++i){ std::vector<char> vis(n,0); if(!aug(i,vis)) return false; } return true;
}

void vh_case(Case&c){
	Rng&r=c.rng;
	static const double bases[][2]={{0,0},{48.9,8.4},{-33,151},{60,-170},{-60,10}};
	auto b=bases[r.below(5)];
	double spread=r.pick({0.0001,0.001,0.02,0.5,4.0});
	unsigned side=r.pick({1u,3u,6u,10u}); if(c.large(999)){ side=330; spread=0.0005; c.count("large extracts"); }
	Net n=make_net(r, side, spread, b[0],b[1], r.chance(1,2));
	int flavour=r.below(3);
	auto tags=[&](const Elem&e){ pm::Tags t; for(auto&x:e.tags) t[x.first]=x.second; return t; };
	for(auto&w:n.ways){
		pm::Tags t; do{ t=ptags::random_tags(r);
			if(flavour&&r.chance(2,3)){ for(auto k:{"access","motorcar","motor_vehicle","bicycle","crossing"}) t.erase(k); t["highway"]=r.pick(std::vector<std::string>{"residential","tertiary","service","secondary","track","living_street","unclassified"}); if(flavour==2) t.erase("oneway"); }
		}while(pm::car_dir(t)<0||pm::speed(t)<0);
		for(auto&x:t) w.tags.push_back({x.first,x.second});
		r.shuffle(w.tags);
	}
	// turn restrictions around crossings
	std::map<int64_t,std::vector<int64_t>> at; for(auto&w:n.ways) for(auto x:w.refs) at[x].push_back(w.id);
	std::vector<int64_t> cross; for(auto&x:at) if(x.second.size()>1) cross.push_back(x.first);
	for(unsigned i=cross.empty()?0:r.below(8);i>0;--i){ Elem e; e.kind=2; e.id=r.below(1000)*10+i; auto v=r.pick(cross); const char*nm[]={"left_turn","right_turn","straight_on","u_turn"};
		e.tags={{"type","restriction"},{"restriction",std::string(r.chance(1,3)?"only_":"no_")+nm[r.below(4)]}}; e.members={{1,r.pick(at[v]),"from"},{1,r.pick(at[v]),"to"},{0,v,"via"}}; n.relations.push_back(e); }
	bool sorted=r.chance(1,2); auto order=n.file_order(r,sorted);
	pbf::Writer w; w.r=&r; auto blocks=pbf::layout(order,r); std::string fn=c.scratch+"/s.pbf"; pbf::write_file(fn,w.file(blocks,sorted&&r.chance(1,2)));
	for(int kind=0;kind<3;++kind){
		bool all=r.chance(1,3); unsigned logged=0; Log lg; if(r.chance(1,3)) lg=[&](const std::string&){ ++logged; };
		c.desc=fmt("kind %d, %zu nodes %zu ways %zu relations, all %d",kind,n.nodes.size(),n.ways.size(),n.relations.size(),all);
		Got g=load(kind,fn,lg,all,false);
		if(sorted){ Got g2=load(kind,fn,nullptr,all,true); VH_REQUIRE(same(g,g2),"the ordered-file hint changed the result"); c.count("ordered hint given"); }
		// composition
		auto map=load_osm_id_mapping_from_pbf(fn,nullptr,[&](uint64_t id,const TagMap&t){ return kind==0?is_osm_way_used_by_cars(id,t):kind==1?is_osm_way_used_by_bicycles(id,t):is_osm_way_used_by_pedestrians(id,t); },nullptr,all);
		std::vector<unsigned> speed(map.is_routing_way.population_count()), comfort(speed.size());
		auto q=load_osm_routing_graph_from_pbf(fn,map,[&](uint64_t id,unsigned rid,const TagMap&t){ speed[rid]=get_osm_way_speed(id,t); comfort[rid]=get_osm_way_bicycle_comfort_level(id,t); return kind==0?get_osm_car_direction_category(id,t):kind==1?get_osm_bicycle_direction_category(id,t):OSMWayDirectionCategory::open_in_both; },
			kind==0?std::function<void(uint64_t,const std::vector<OSMRelationMember>&,const TagMap&,std::function<void(OSMTurnRestriction)>)>([](uint64_t id,const std::vector<OSMRelationMember>&l,const TagMap&t,std::function<void(OSMTurnRestriction)>cb){ decode_osm_car_turn_restrictions(id,l,t,cb); }):nullptr,nullptr);
		size_t na=q.head.size(), nn=q.first_out.size()-1;
		VH_REQUIRE(g.first_out==q.first_out&&g.head==q.head&&g.geo==q.geo_distance&&g.lat==q.latitude&&g.lon==q.longitude,"the loaded graph differs from the composition of the building blocks");
		VH_REQUIRE(g.ff==q.forbidden_turn_from_arc&&g.ft==q.forbidden_turn_to_arc,"forbidden turns differ from the composition of the building blocks");
		if(kind==0){ VH_EQ(g.time.size(),na,"travel times"); for(size_t a=0;a<na;++a){ VH_EQ(g.time[a],want_time(g.geo[a],speed[q.way[a]]),"travel time of arc %zu with %u m at %u km/h",a,g.geo[a],speed[q.way[a]]); if(g.geo[a]>238609) c.count("arcs beyond 32 bit products"); if(g.time[a]==inf_weight) c.count("saturated travel times"); } }
		if(kind==1){ VH_EQ(g.comfort.size(),na,"comfort levels"); for(size_t a=0;a<na;++a) VH_EQ((unsigned)g.comfort[a],comfort[q.way[a]],"comfort level of arc %zu",a); }
		// independent model
		Model m=build_model(n,[&](const Elem&e){ auto t=tags(e); return kind==0?pm::car(t):kind==1?pm::bicycle(t):pm::pedestrian(t); },nullptr,all,[&](const Elem&e){ auto t=tags(e); return kind==0?pm::car_dir(t):kind==1?pm::bicycle_dir(t):0; });
		std::vector<unsigned> wspeed(m.way_list.size()), wcomfort(m.way_list.size()); for(auto&e:n.ways){ auto it=m.way_local.find(e.id); if(it!=m.way_local.end()){ wspeed[it->second]=pm::speed(tags(e)); wcomfort[it->second]=pm::comfort(tags(e)); } }
		VH_EQ(nn,m.routing_list.size(),"node count against the model"); VH_EQ(na,m.arcs.size(),"arc count against the model"); VH_REQUIRE(g.first_out.front()==0&&g.first_out.back()==na,"first_out"); VH_REQUIRE(g.lat.size()==nn&&g.lon.size()==nn,"coordinates");
		std::map<std::pair<unsigned,unsigned>,std::pair<std::vector<unsigned>,std::vector<const MArc*>>> grp;
		for(auto&a:m.arcs) grp[{a.tail,a.head}].second.push_back(&a);
		for(unsigned v=0;v<nn;++v){ auto&e=n.nodes[n.node_at.at(m.routing_list[v])]; VH_REQUIRE(close_coord(g.lat[v],e.lat*1e-9)&&close_coord(g.lon[v],e.lon*1e-9),"coordinates of node %u",v); VH_REQUIRE(g.first_out[v]<=g.first_out[v+1],"first_out"); for(unsigned a=g.first_out[v];a<g.first_out[v+1];++a){ VH_REQUIRE(g.head[a]<nn,"head"); grp[{v,g.head[a]}].first.push_back(a); } }
		for(auto&x:grp){ auto&ga=x.second.first; auto&mo=x.second.second; VH_EQ(ga.size(),mo.size(),"number of arcs from %u to %u",x.first.first,x.first.second);
			VH_REQUIRE(match(ga.size(),[&](size_t i,size_t j){ unsigned a=ga[i]; auto&y=*mo[j]; return dist_ok(g.geo[a],y) && (kind!=0||g.time[a]==want_time(g.geo[a],wspeed[y.way])) && (kind!=1||g.comfort[a]==wcomfort[y.way]); }),"the lengths, times or comfort levels of the arcs from %u to %u do not fit the ways (first: %u m %u)",x.first.first,x.first.second,g.geo[ga[0]],kind==0?g.time[ga[0]]:kind==1?g.comfort[ga[0]]:0); }
		VH_EQ(g.ff.size(),g.ft.size(),"forbidden turns"); std::vector<unsigned> tail(na); for(unsigned v=0;v<nn;++v) for(unsigned a=g.first_out[v];a<g.first_out[v+1];++a) tail[a]=v;
		for(size_t i=0;i<g.ff.size();++i){ VH_REQUIRE(g.ff[i]<na&&g.ft[i]<na&&g.head[g.ff[i]]==tail[g.ft[i]],"forbidden turn %zu is not between adjacent arcs",i); if(i) VH_REQUIRE(std::make_pair(g.ff[i-1],g.ft[i-1])<std::make_pair(g.ff[i],g.ft[i]),"forbidden turns not sorted"); }
		c.count(kind==0?"car arcs":kind==1?"bicycle arcs":"pedestrian arcs",na); c.count("forbidden turns",g.ff.size()); c.count("log messages",logged); if(na==0) c.count("graphs without arcs");
		if(na>2) c.nontrivial(hcombine(kind,hcombine(hvec(g.head),hvec(g.geo))));
		c.sample(c.desc+fmt(", %zu routing nodes %zu arcs",nn,na));
	}
	unlink(fn.c_str());
}
