// C27: identifier mapping and routing graph of random road networks against an independent construction.
#include "vh.h"
#include "pbf.h"
#include "osmmodel.h"
#include <routingkit/osm_graph_builder.h>
#include <routingkit/id_mapper.h>
using namespace RoutingKit;
using namespace vh;
using namespace osmm;

static OSMWayDirectionCategory cat(int d){ return d==0?OSMWayDirectionCategory::open_in_both:d==1?OSMWayDirectionCategory::only_open_forwards:d==2?OSMWayDirectionCategory::only_open_backwards:OSMWayDirectionCategory::closed; }

void vh_case(Case&c){
	Rng&r=c.rng;
	static const double bases[][2]={{0,0},{48.9,8.4},{-33,151},{70,-179.5},{-89,10},{64,-21}};
	auto b=bases[r.below(6)];
	const bool large=c.large(999), huge=c.large(9999); double spread=r.pick({0.00001,0.001,0.02,1.0}); unsigned side=r.pick({1u,3u,6u,14u}); if(large){ side=330; spread=0.0005; c.count("large extracts"); } const bool longway=c.large(397); if(longway) side=62; if(huge){ side=40; c.count("identifiers beyond 2^32"); }
	Net n=make_net(r, side, spread, b[0],b[1], r.chance(1,3), huge);
	if((longway||(large&&r.chance(1,2)))&&n.nodes.size()>2100){ Elem e; e.kind=1; e.id=0; for(auto&w:n.ways) e.id=std::max(e.id,w.id+1); size_t len=large?n.nodes.size():r.in(2001,(unsigned)n.nodes.size()), at=r.below(n.nodes.size()-len+1); if(r.chance(1,2)) n.ways.resize(std::min<size_t>(n.ways.size(),r.below(40))); for(size_t i=0;i<len;++i) e.refs.push_back(n.nodes[at+i].id); e.tags.push_back({"use","yes"}); n.ways.push_back(e); c.count("ways of more than 2000 nodes"); }
	uint64_t salt=r.next(); unsigned sel=r.pick({1u,2u,4u,1000u});
	bool all=r.chance(1,4), some_nodes=r.chance(1,3), null_dir=r.chance(1,6);
	for(auto&w:n.ways){
		if(mix(salt^w.id)%sel!=0 || sel==1) w.tags.push_back({"use","yes"});
		w.tags.push_back({"dir",std::to_string(null_dir?0:mix(salt*3^w.id)%4==3&&mix(salt*5^w.id)%3?0:mix(salt*3^w.id)%4)});
	}
	auto tag=[](const Elem&e,const char*k)->std::string{ for(auto&t:e.tags) if(t.first==k) return t.second; return ""; };
	auto selected=[&](const Elem&e){ return tag(e,"use")=="yes"; };
	auto wanted=[&](const Elem&e){ return tag(e,"poi")=="stop"; };
	auto direction=[&](const Elem&e){ return atoi(tag(e,"dir").c_str()); };
	Model m=build_model(n,selected,some_nodes?std::function<bool(const Elem&)>(wanted):nullptr,all,direction);
	bool sorted=r.chance(1,2);
	auto order=n.file_order(r,sorted);
	pbf::Writer w; w.r=&r; auto blocks=pbf::layout(order,r); std::string fn=c.scratch+"/g.pbf"; pbf::write_file(fn,w.file(blocks,sorted));
	c.desc=fmt("%zu nodes %zu ways, %zu routing ways, all %d explicit %d sorted %d",n.nodes.size(),n.ways.size(),m.routing_way.size(),all,some_nodes,sorted);
	std::function<bool(uint64_t,const TagMap&)> node_cb; if(some_nodes) node_cb=[](uint64_t,const TagMap&t){ const char*p=t["poi"]; return p&&!strcmp(p,"stop"); };
	std::vector<std::string> log; std::function<void(const std::string&)> lg; if(r.chance(1,3)) lg=[&](const std::string&s){ log.push_back(s); };
	auto map=load_osm_id_mapping_from_pbf(fn,node_cb,[&](uint64_t id,const TagMap&t){ (void)id; const char*p=t["use"]; return p&&!strcmp(p,"yes"); },lg,all);
	auto same=[&](const BitVector&v, const std::set<int64_t>&s, const char*what){
		size_t cnt=0; for(uint64_t i=0;i<v.size();++i){ if(i%64==0&&i+64<v.size()&&v.data()[i/64]==0){ i+=63; continue; } if(!v.is_set(i)) continue; ++cnt; VH_REQUIRE(s.count((int64_t)i),"%s: id %llu is marked but must not be",what,(unsigned long long)i); }
		VH_REQUIRE(cnt==s.size(),"%s: %zu ids are marked instead of %zu",what,cnt,s.size());
	};
	same(map.is_modelling_node,m.modelling,"modelling nodes"); same(map.is_routing_node,m.routing,"routing nodes"); same(map.is_routing_way,m.routing_way,"routing ways");
	OSMRoadGeometry gm[]={OSMRoadGeometry::none,OSMRoadGeometry::uncompressed,OSMRoadGeometry::first_and_last};
	for(int rep=0;rep<2;++rep){
		int geom=r.below(3); bool decoder=r.chance(1,4), told=sorted&&r.chance(1,2);
		std::map<unsigned,std::set<uint64_t>> seen; bool bad_id=false;
		std::function<OSMWayDirectionCategory(uint64_t,unsigned,const TagMap&)> dir_cb;
		if(!null_dir||r.chance(1,2)) dir_cb=[&](uint64_t id,unsigned rid,const TagMap&t){ seen[rid].insert(id); auto it=m.way_local.find((int64_t)id); if(it==m.way_local.end()||it->second!=rid) bad_id=true; return cat(atoi(t["dir"])); };
		std::function<void(uint64_t,const std::vector<OSMRelationMember>&,const TagMap&,std::function<void(OSMTurnRestriction)>)> dec;
		if(decoder) dec=[](uint64_t,const std::vector<OSMRelationMember>&,const TagMap&,std::function<void(OSMTurnRestriction)>){};
		auto g=load_osm_routing_graph_from_pbf(fn,map,dir_cb,dec,lg,told,gm[geom]);
		c.desc+=fmt(" geom %d told %d",geom,told);
		if(dir_cb) VH_REQUIRE(!bad_id&&seen.size()==m.routing_way.size(),"the way callback was called with wrong ids or not for each way");
		if(geom==0&&decoder) geom=2;
		size_t nn=m.routing_list.size(), na=m.arcs.size();
		VH_EQ(g.first_out.size(),nn+1,"first_out"); VH_EQ((size_t)g.node_count(),nn,"node count"); VH_EQ((size_t)g.arc_count(),na,"arc count");
		VH_EQ(g.latitude.size(),nn,"latitude"); VH_EQ(g.longitude.size(),nn,"longitude"); VH_EQ(g.way.size(),na,"way"); VH_EQ(g.geo_distance.size(),na,"geo_distance"); VH_EQ(g.is_arc_antiparallel_to_way.size(),na,"orientation");
		VH_REQUIRE(g.first_out.front()==0&&g.first_out.back()==na,"first_out bounds");
		VH_REQUIRE(g.forbidden_turn_from_arc.empty()&&g.forbidden_turn_to_arc.empty(),"forbidden turns without restrictions");
		for(size_t i=0;i<nn;++i){ VH_REQUIRE(g.first_out[i]<=g.first_out[i+1],"first_out not monotone"); auto&e=n.nodes[n.node_at.at(m.routing_list[i])];
			VH_REQUIRE(close_coord(g.latitude[i],e.lat*1e-9)&&close_coord(g.longitude[i],e.lon*1e-9),"routing node %zu (OSM %lld) is at %f %f instead of %f %f",i,(long long)e.id,g.latitude[i],g.longitude[i],e.lat*1e-9,e.lon*1e-9); }
		if(geom){ VH_EQ(g.first_modelling_node.size(),na+1,"first_modelling_node"); VH_REQUIRE(g.modelling_node_latitude.size()==g.modelling_node_longitude.size()&&g.first_modelling_node.back()==g.modelling_node_latitude.size()&&g.first_modelling_node[0]==0,"geometry bounds"); }
		// match the arcs as multisets per (tail, head, way, orientation)
		std::map<std::tuple<unsigned,unsigned,unsigned,bool>,std::vector<size_t>> want; for(size_t i=0;i<na;++i){ auto&a=m.arcs[i]; want[std::make_tuple(a.tail,a.head,a.way,a.anti)].push_back(i); }
		for(unsigned t=0;t<nn;++t) for(unsigned a=g.first_out[t];a<g.first_out[t+1];++a){
			auto it=want.find(std::make_tuple(t,g.head[a],g.way[a],(bool)g.is_arc_antiparallel_to_way[a]));
			VH_REQUIRE(it!=want.end(),"arc %u from %u to %u on way %u orientation %d does not exist in the map",a,t,g.head[a],g.way[a],(int)g.is_arc_antiparallel_to_way[a]);
			std::vector<std::pair<float,float>> have; if(geom){ VH_REQUIRE(g.first_modelling_node[a]<=g.first_modelling_node[a+1],"geometry index"); for(unsigned k=g.first_modelling_node[a];k<g.first_modelling_node[a+1];++k) have.push_back({g.modelling_node_latitude[k],g.modelling_node_longitude[k]}); }
			bool found=false; std::string why;
			for(size_t k=0;k<it->second.size();++k){ auto&x=m.arcs[it->second[k]];
				if(!dist_ok(g.geo_distance[a],x)){ why=fmt("length %u instead of %.2f",g.geo_distance[a],x.dist); continue; }
				if(geom && !geom_close(have,expected_geom(x,geom))){ why=fmt("geometry of %zu points instead of %zu, or other points",have.size(),expected_geom(x,geom).size()); continue; }
				it->second.erase(it->second.begin()+k); found=true; break; }
			VH_REQUIRE(found,"arc %u from %u to %u on way %u orientation %d: %s",a,t,g.head[a],g.way[a],(int)g.is_arc_antiparallel_to_way[a],it->second.empty()?"occurs too often":why.c_str());
			if(it->second.empty()) want.erase(it);
			if(have.size()) c.count("arcs with geometry");
		}
		c.count("arcs checked",na); c.count("routing nodes checked",nn);
		if(na>4) c.nontrivial(hcombine(hvec(g.head),hvec(g.geo_distance)));
		if(told) c.count("sorted file reads");
	}
	if(all) c.count("all modelling nodes as routing nodes");
	if(some_nodes) c.count("explicit routing nodes");
	if(m.routing_way.empty()) c.count("graphs without ways");
	c.sample(c.desc); unlink(fn.c_str());
}
