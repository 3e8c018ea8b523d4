// C28: turn restrictions of random road networks against an independent resolution with a must/may interval:
// turns that are forbidden for certain, and turns for which the geometry does not allow a certain answer.
#include "vh.h"
#include "pbf.h"
#include "osmmodel.h"
#include <routingkit/osm_graph_builder.h>
#include <routingkit/osm_profile.h>
using namespace RoutingKit;
using namespace vh;
using namespace osmm;

static OSMWayDirectionCategory cat(int d){ return d==0?OSMWayDirectionCategory::open_in_both:d==1?OSMWayDirectionCategory::only_open_forwards:d==2?OSMWayDirectionCategory::only_open_backwards:OSMWayDirectionCategory::closed; }
struct Res{ bool mandatory; int dir; int64_t from, to; bool has_via; int64_t via; };

// independent decoding of a restriction relation
static std::vector<Res> decode(const Elem&e){
	std::string v; bool has=false; for(auto&t:e.tags) if(t.first=="restriction"){ v=t.second; has=true; }
	std::vector<Res> out; if(!has) return out;
	Res x{}; std::string d;
	if(v.rfind("only_",0)==0){ x.mandatory=true; d=v.substr(5); } else if(v.rfind("no_",0)==0){ x.mandatory=false; d=v.substr(3); } else return out;
	const char*names[]={"left_turn","right_turn","straight_on","u_turn"}; x.dir=-1; for(int i=0;i<4;++i) if(d==names[i]) x.dir=i;
	if(x.dir<0) return out;
	std::vector<int64_t> from,to; int vias=0; int vtype=0; int64_t via=0;
	for(auto&m:e.members){
		if(m.role=="via"){ ++vias; vtype=m.type; via=m.id; }
		if(m.role=="from"&&m.type==1) from.push_back(m.id);
		if(m.role=="to"&&m.type==1) to.push_back(m.id);
	}
	if(vias>1||(vias==1&&vtype!=0)||from.empty()||to.empty()) return out;
	if(x.mandatory&&(from.size()!=1||to.size()!=1)) return out;
	x.has_via=vias==1; x.via=via;
	for(auto f:from) for(auto t:to){ x.from=f; x.to=t; out.push_back(x); }
	return out;
}

void vh_case(Case&c){
	Rng&r=c.rng;
	bool aligned=r.chance(2,3);
	const bool large=c.large(4999); unsigned side=r.pick({2u,3u,4u,6u}); double spread=r.pick({0.0005,0.001,0.01}); if(large){ side=330; spread=0.0005; c.count("large extracts"); }
	Net n=make_net(r, side, spread, r.real(-3,3), r.real(-100,100), aligned);
	uint64_t salt=r.next();
	unsigned dirmode=r.below(3);
	for(auto&w:n.ways){ unsigned d = dirmode==0?0: dirmode==1? mix(salt^w.id)%2 : mix(salt^w.id)%5; if(d==4) d=0; w.tags.push_back({"dir",std::to_string(d)}); if(mix(salt*7^w.id)%8) w.tags.push_back({"use","yes"}); }
	auto tag=[](const Elem&e,const char*k)->std::string{ for(auto&t:e.tags) if(t.first==k) return t.second; return ""; };
	auto selected=[&](const Elem&e){ return tag(e,"use")=="yes"; };
	auto direction=[&](const Elem&e){ return atoi(tag(e,"dir").c_str()); };
	Model m=build_model(n,selected,nullptr,r.chance(1,3),direction);
	bool all=false; { Model m2=build_model(n,selected,nullptr,true,direction); all = m.routing==m2.routing && r.chance(1,2); if(r.chance(1,3)){ all=true; m=m2; } else if(m.routing==m2.routing) all=true; else all=false; }
	// relations: mostly built around real crossings
	std::map<int64_t,std::vector<int64_t>> ways_at; for(auto&w:n.ways) for(auto x:w.refs) ways_at[x].push_back(w.id);
	std::vector<int64_t> crossing; for(auto&x:ways_at) if(x.second.size()>1) crossing.push_back(x.first);
	unsigned rc=r.below(12); if(large) rc=r.in(1500,3000); const char*names[]={"left_turn","right_turn","straight_on","u_turn"};
	for(unsigned i=0;i<rc && !n.ways.empty();++i){
		Elem e; e.kind=2; e.id=1+r.below(100000)*4000+i; int64_t f,t,v;
		if(!crossing.empty()&&r.chance(7,8)){ v=r.pick(crossing); f=r.pick(ways_at[v]); t=r.pick(ways_at[v]); } else { f=n.ways[r.below(n.ways.size())].id; t=n.ways[r.below(n.ways.size())].id; v=n.nodes[r.below(n.nodes.size())].id; }
		std::string val=std::string(r.chance(1,3)?"only_":"no_")+names[r.below(4)];
		if(r.chance(1,25)) val=r.pick(std::vector<std::string>{"no_entry","only_","no_","","nope","no_left_turn ","No_left_turn","left_turn","only_right_turn;no_u_turn"});
		if(!r.chance(1,25)) e.tags.push_back({"restriction",val});
		if(r.chance(1,2)) e.tags.push_back({"type","restriction"});
		std::vector<Member> mem{{1,f,"from"},{1,t,"to"}};
		if(r.chance(2,3)) mem.push_back({0,v,"via"});
		if(r.chance(1,20)) mem.push_back({(int)r.below(3),v,"via"});
		if(r.chance(1,20)) mem.push_back({(int)r.below(2),n.ways[r.below(n.ways.size())].id,"from"});
		if(r.chance(1,20)) mem.push_back({(int)r.below(2),n.ways[r.below(n.ways.size())].id,"to"});
		if(r.chance(1,30)) mem.erase(mem.begin()+r.below(2));
		if(r.chance(1,10)) mem.push_back({(int)r.below(3),5,r.pick(std::vector<std::string>{"location_hint","","From","forward"})});
		if(r.chance(1,4)) r.shuffle(mem);
		e.members=mem; n.relations.push_back(e);
	}
	// direct restrictions handed in by the caller instead of decoded relations
	bool sorted=r.chance(1,2); auto order=n.file_order(r,sorted);
	pbf::Writer w; w.r=&r; auto blocks=pbf::layout(order,r); std::string fn=c.scratch+"/t.pbf"; pbf::write_file(fn,w.file(blocks,sorted));
	auto map=load_osm_id_mapping_from_pbf(fn,nullptr,[&](uint64_t,const TagMap&t){ return t["use"]!=nullptr; },nullptr,all);
	std::vector<std::string> log; std::function<void(const std::string&)> lg; if(r.chance(1,3)) lg=[&](const std::string&s){ log.push_back(s); };
	std::vector<Res> got;
	OSMRoadGeometry gm[]={OSMRoadGeometry::none,OSMRoadGeometry::uncompressed,OSMRoadGeometry::first_and_last};
	auto g=load_osm_routing_graph_from_pbf(fn,map,[&](uint64_t,unsigned,const TagMap&t){ return cat(atoi(t["dir"])); },
		[&](uint64_t id,const std::vector<OSMRelationMember>&l,const TagMap&t,std::function<void(OSMTurnRestriction)>cb){
			decode_osm_car_turn_restrictions(id,l,t,[&](OSMTurnRestriction x){
				VH_REQUIRE(x.osm_relation_id==id,"relation id"); 
				got.push_back({x.category==OSMTurnRestrictionCategory::mandatory,(int)(x.direction==OSMTurnDirection::left_turn?0:x.direction==OSMTurnDirection::right_turn?1:x.direction==OSMTurnDirection::straight_on?2:3),(int64_t)x.from_way,(int64_t)x.to_way,x.via_node!=(uint64_t)-1,x.via_node!=(uint64_t)-1?(int64_t)x.via_node:0}); cb(x); },lg); },
		lg,false,gm[r.below(3)]);
	// 1. decoding
	std::vector<Res> want; for(auto&e:order) if(e.kind==2) for(auto&x:decode(e)) want.push_back(x);
	c.desc=fmt("%zu nodes %zu ways %zu relations, %zu restrictions, %u arcs, all %d",n.nodes.size(),n.ways.size(),n.relations.size(),want.size(),g.arc_count(),all);
	VH_EQ(got.size(),want.size(),"number of decoded restrictions");
	for(size_t i=0;i<got.size();++i){ auto&a=got[i]; auto&b=want[i]; VH_REQUIRE(a.mandatory==b.mandatory&&a.dir==b.dir&&a.from==b.from&&a.to==b.to&&a.has_via==b.has_via&&(!a.has_via||a.via==b.via),"restriction %zu decoded wrongly",i); }
	// 2. resolution on the returned graph (its arcs are the subject of C27)
	unsigned nn=g.node_count(), na=g.arc_count(); std::vector<unsigned> tail(na); for(unsigned i=0;i<nn;++i) for(unsigned a=g.first_out[i];a<g.first_out[i+1];++a) tail[a]=i;
	std::vector<std::vector<unsigned>> in(nn); for(unsigned a=0;a<na;++a) in[g.head[a]].push_back(a);
	// neighbouring points of the arcs, from the model of C27: (tail,head,way,anti) may be ambiguous, then the geometry is uncertain
	std::map<std::tuple<unsigned,unsigned,unsigned,bool>,std::vector<const MArc*>> ma; for(auto&a:m.arcs) ma[std::make_tuple(a.tail,a.head,a.way,a.anti)].push_back(&a);
	auto pt=[&](unsigned node){ auto&e=n.nodes[n.node_at.at(m.routing_list[node])]; return std::make_pair(e.lat*1e-9,e.lon*1e-9); };
	auto next=[&](unsigned a, bool at_tail, std::pair<double,double>&p){ auto it=ma.find(std::make_tuple(tail[a],g.head[a],g.way[a],(bool)g.is_arc_antiparallel_to_way[a])); VH_REQUIRE(it!=ma.end(),"harness: arc not in the model"); if(it->second.size()!=1) return false; auto&x=*it->second[0];
		if(x.geom.empty()) p=pt(at_tail?x.head:x.tail); else { auto q=at_tail?x.geom.front():x.geom.back(); p={q.first,q.second}; } return true; };
	std::set<std::pair<unsigned,unsigned>> must, may; unsigned resolved=0, ignored=0, uncertain=0, inferred=0, by_angle=0;
	const double eps=2.0;
	for(auto&x:want){
		auto fi=m.way_local.find(x.from), ti=m.way_local.find(x.to); if(fi==m.way_local.end()||ti==m.way_local.end()){ ++ignored; continue; }
		unsigned fw=fi->second, tw=ti->second, via=invalid_id;
		if(x.has_via){ auto vi=m.routing_local.find(x.via); if(vi==m.routing_local.end()){ ++ignored; continue; } via=vi->second; }
		else if(fw==tw && x.mandatory){
			// "straight on along this way" at every node of the way
			bool simple=true; std::map<unsigned,std::vector<unsigned>> ia,oa; for(unsigned a=0;a<na;++a) if(g.way[a]==fw){ ia[g.head[a]].push_back(a); oa[tail[a]].push_back(a); }
			for(auto&y:ia) if(y.second.size()>1) simple=false;
			for(auto&y:oa) if(y.second.size()>1) simple=false;
			for(auto&y:ia) for(auto a:y.second) for(unsigned o=g.first_out[y.first];o<g.first_out[y.first+1];++o){
				if(simple){ if(oa.count(y.first)&&oa[y.first][0]!=o) must.insert({a,o}); } else may.insert({a,o}); }
			++(simple?resolved:uncertain); continue;
		}else{
			std::set<unsigned> heads, both; for(unsigned a=0;a<na;++a) if(g.way[a]==fw) heads.insert(g.head[a]);
			for(unsigned a=0;a<na;++a) if(g.way[a]==tw && heads.count(tail[a])) both.insert(tail[a]);
			if(both.size()!=1){ ++ignored; continue; } via=*both.begin(); ++inferred;
		}
		std::vector<unsigned> fc,tc; for(auto a:in[via]) if(g.way[a]==fw) fc.push_back(a);
		for(unsigned a=g.first_out[via];a<g.first_out[via+1];++a) if(g.way[a]==tw) tc.push_back(a);
		if(fc.empty()||tc.empty()){ ++ignored; continue; }
		std::vector<std::pair<unsigned,unsigned>> sure, unsure;
		if(fc.size()==1&&tc.size()==1) sure.push_back({fc[0],tc[0]});
		else{
			++by_angle;
			for(auto f:fc) for(auto t:tc){
				std::pair<double,double> p,q,v=pt(via); bool known=next(f,false,p)&&next(t,true,q);
				auto tiny=[&](std::pair<double,double>a){ return std::fabs(a.first-v.first)+std::fabs(a.second-v.second)<1e-4; };
				if(!known||tiny(p)||tiny(q)){ unsure.push_back({f,t}); continue; }
				double a1=atan2(v.first-p.first,v.second-p.second), a2=atan2(q.first-v.first,q.second-v.second), d=(a2-a1)*180/M_PI; while(d<0) d+=360; while(d>=360) d-=360;
				auto inside=[&](double lo,double hi){ return d>lo+eps&&d<hi-eps?1: d>lo-eps&&d<hi+eps?0:-1; };
				int s; switch(x.dir){ case 0: s=inside(45,135); break; case 1: s=inside(225,315); break; case 3: s=inside(120,240); break; default: s= (d<60-eps||d>300+eps)?1:(d<60+eps||d>300-eps)?0:-1; }
				if(s==1) sure.push_back({f,t}); else if(s==0) unsure.push_back({f,t});
			}
		}
		auto add=[&](std::set<std::pair<unsigned,unsigned>>&s,std::pair<unsigned,unsigned>p){ if(!x.mandatory) s.insert(p); else for(unsigned o=g.first_out[via];o<g.first_out[via+1];++o) if(o!=p.second) s.insert({p.first,o}); };
		if(unsure.empty()){ if(sure.size()==1){ add(must,sure[0]); ++resolved; } else ++ignored; }
		else{ ++uncertain; for(auto&p:sure) add(may,p); for(auto&p:unsure) add(may,p); }
	}
	std::vector<std::pair<unsigned,unsigned>> have; VH_EQ(g.forbidden_turn_from_arc.size(),g.forbidden_turn_to_arc.size(),"turn lists");
	for(size_t i=0;i<g.forbidden_turn_from_arc.size();++i){ unsigned f=g.forbidden_turn_from_arc[i], t=g.forbidden_turn_to_arc[i]; VH_REQUIRE(f<na&&t<na,"arc out of range"); VH_REQUIRE(g.head[f]==tail[t],"forbidden turn %u -> %u does not meet at a node",f,t); have.push_back({f,t}); }
	for(size_t i=1;i<have.size();++i) VH_REQUIRE(have[i-1]<have[i],"forbidden turns are not sorted or not unique");
	std::set<std::pair<unsigned,unsigned>> hs(have.begin(),have.end());
	auto say=[&](std::pair<unsigned,unsigned>p){ return fmt("turn from arc %u (%u->%u way %lld) to arc %u (%u->%u way %lld)",p.first,tail[p.first],g.head[p.first],(long long)m.way_list[g.way[p.first]],p.second,tail[p.second],g.head[p.second],(long long)m.way_list[g.way[p.second]]); };
	for(auto&p:must) VH_REQUIRE(hs.count(p),"%s must be forbidden",say(p).c_str());
	for(auto&p:hs) VH_REQUIRE(must.count(p)||may.count(p),"%s must not be forbidden",say(p).c_str());
	c.count("restrictions resolved",resolved); c.count("restrictions ignored",ignored); c.count("uncertain restrictions",uncertain); c.count("via nodes inferred",inferred); c.count("resolved by direction",by_angle); c.count("forbidden turns checked",hs.size());
	if(!must.empty()) c.nontrivial(hcombine(hvec(g.head),hcombine(hvec(g.forbidden_turn_from_arc),hvec(g.forbidden_turn_to_arc))));
	c.sample(c.desc); unlink(fn.c_str());
}
