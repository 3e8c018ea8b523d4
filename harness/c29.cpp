// C29: profile functions on random tag sets against a table driven model; strings live in exactly sized heap blocks.
#include "vh.h"
#include "profmodel.h"
#include "proftags.h"
#include <routingkit/osm_profile.h>
#include <memory>
using namespace RoutingKit;
using namespace vh;

static int num(OSMWayDirectionCategory d){ return d==OSMWayDirectionCategory::open_in_both?0:d==OSMWayDirectionCategory::only_open_forwards?1:d==OSMWayDirectionCategory::only_open_backwards?2:3; }

void vh_case(Case&c){
	Rng&r=c.rng; uint64_t h=1; TagMap tm;
	for(unsigned round=0;round<20;++round){
		pm::Tags t=ptags::random_tags(r);
		if(round==0 && c.idx%3==0) t["maxspeed"]=ptags::hostile(r,true);
		std::string d; for(auto&x:t) d+=x.first+"="+x.second.substr(0,60)+" | "; c.desc=d;
		std::vector<std::unique_ptr<char[]>> mem; auto put=[&](const std::string&s){ mem.emplace_back(new char[s.size()+1]); memcpy(mem.back().get(),s.c_str(),s.size()+1); return (const char*)mem.back().get(); };
		std::vector<std::pair<const char*,const char*>> kv; for(auto&x:t) kv.push_back({put(x.first),put(x.second)});
		r.shuffle(kv);
		tm.build(kv.size(),[&](unsigned i){ return kv[i].first; },[&](unsigned i){ return kv[i].second; });
		std::function<void(const std::string&)> lg; unsigned logged=0; if(r.chance(1,2)) lg=[&](const std::string&s){ logged+=1+s.size()*0; };
		uint64_t id=r.next();
		for(int twice=0;twice<2;++twice){
			bool car=is_osm_way_used_by_cars(id,tm,lg), ped=is_osm_way_used_by_pedestrians(id,tm,lg), bike=is_osm_way_used_by_bicycles(id,tm,lg);
			VH_REQUIRE(car==pm::car(t),"usable by cars: %d",car); VH_REQUIRE(ped==pm::pedestrian(t),"usable by pedestrians: %d",ped); VH_REQUIRE(bike==pm::bicycle(t),"usable by bicycles: %d",bike);
			int cd=num(get_osm_car_direction_category(id,tm,lg)), md=pm::car_dir(t); VH_REQUIRE(md<0?(cd==0||cd==3):cd==md,"car direction category %d instead of %d",cd,md);
			int bd=num(get_osm_bicycle_direction_category(id,tm,lg)); VH_EQ(bd,pm::bicycle_dir(t),"bicycle direction category");
			int cl=get_osm_way_bicycle_comfort_level(id,tm,lg); VH_EQ(cl,pm::comfort(t),"bicycle comfort level");
			VH_REQUIRE(cl>=get_min_bicycle_comfort_level()&&cl<=get_max_bicycle_comfort_level(),"comfort level %d outside of the announced range",cl);
			unsigned sp=get_osm_way_speed(id,tm,lg); long ms=pm::speed(t); VH_REQUIRE(sp>0,"speed is zero"); if(ms>0) VH_EQ((long)sp,ms,"speed in km/h");
			std::string nm=get_osm_way_name(id,tm,lg); VH_REQUIRE(nm==pm::name(t),"name \"%s\"",nm.substr(0,80).c_str());
			if(!twice){
				c.count(car?"used by cars":"not used by cars"); c.count(ped?"used by pedestrians":"not used by pedestrians"); c.count(bike?"used by bicycles":"not used by bicycles");
				c.count(fmt("car direction %d",md)); c.count(fmt("bicycle direction %d",bd)); c.count(fmt("comfort %d",cl)); if(t.count("maxspeed")) c.count(ms>0?"posted speeds checked":"posted speeds only positive");
				c.count("log messages",logged);
			}
		}
		h=hcombine(h,hstr(d));
		// destroying the strings must not matter for later rounds
		tm.clear();
	}
	c.nontrivial(h); c.sample(c.desc);
}
