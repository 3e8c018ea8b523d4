// Random tag sets around everything the profiles look at, with near misses and hostile values.
#pragma once
#include "vh.h"
#include <map>
namespace ptags{
using vh::Rng;
static const std::vector<std::string> HIGHWAY={"motorway","trunk","primary","secondary","tertiary","unclassified","residential","service","motorway_link","trunk_link","primary_link","secondary_link","tertiary_link","motorway_junction","living_street","track","ferry","bicycle_road","construction","path","footway","cycleway","bridleway","pedestrian","bus_guideway","raceway","escape","steps","proposed","conveying","crossing","escalator","elevator","platform","road","corridor","rest_area","services"};
static const std::vector<std::string> ONEWAY={"-1","reverse","backward","yes","true","1","no","false","0","reversible","alternating","opposite","no_planned","tolerated","permissive"};
static const std::vector<std::string> ACCESS={"yes","permissive","delivery","designated","destination","agricultural","forestry","public","no","private","customers","unknown","use_sidepath","dismount"};
static const std::vector<std::string> CYCLE={"opposite","opposite_track","opposite_lane","opposite_share_busway","track","lane","no","shared_lane","share_busway","none","separate"};
static const std::vector<std::string> STOP={"stop_position","platform","stop_area","station","halt","subway_entrance","tram_stop","rail","tram","crossing","switch"};
static const std::vector<std::string> SPEED={"signals","variable","none","unlimited","walk","foot","de:walk","walking_pace","schritt","de:urban","urban","fr:living_street","living_street","de:rural","at:rural","ro:rural","rural","ru:rural","ua:rural","ru:motorway","ch:motorway","at:motorway","ro:motorway","de:motorway","national","ro:trunk","dk:rural","ch:rural","fr:rural","it:rural","hu:rural","de:zone:30","de:zone30","at:zone30","unposted","fr:motorway","xx:rural","gb:nsl_single","x:urban","xxx:urban",":urban","de:zone:20"};
inline std::string hostile(Rng&r,bool longer){
	switch(r.below(8)){
		case 0: return "";
		case 1:{ std::string s(r.below(12),'x'); for(auto&ch:s) ch=(char)(1+r.below(255)); return s; }
		case 2:{ std::string s(longer?900+r.below(300):r.below(40),'x'); for(auto&ch:s) ch="0123456789; abkmph/?:"[r.below(21)]; return s; }
		case 3: return std::string(longer?1000+r.below(100):r.below(20), " ;?9"[r.below(4)]);
		case 4: return std::to_string(r.next());
		case 5: return std::string(1+r.below(3),' ')+";;";
		case 6: return std::string(1020+r.below(10),'1');
		default: return std::string(r.below(30),'0')+std::to_string(r.below(200));
	}
}
inline std::string speed(Rng&r){
	switch(r.below(10)){
		case 0: case 1: return r.pick(SPEED);
		case 2:{ std::string s=r.pick(SPEED); for(auto&ch:s) if(r.chance(1,2)) ch=(char)toupper(ch); return s; }
		case 3: case 4: return std::to_string(r.below(r.pick({2u,10u,150u,1000u,1000000u})));
		case 5: case 6: return std::to_string(r.below(r.pick({3u,10u,150u,1000000u})))+std::string(r.below(3),' ')+r.pick(std::vector<std::string>{"mph","MPH","km/h","kmh","kph","knots","Knots","mp","mphh","m/s",".5","km","?","mph ","-70"});
		case 7: case 8:{ std::string s; unsigned n=2+r.below(3); for(unsigned i=0;i<n;++i){ if(i) s+=std::string(r.chance(1,8)?" ":"")+";"+std::string(r.below(3),' '); s+= r.chance(1,10)?"":speed(r); } return std::string(r.below(2),' ')+s; }
		default: return hostile(r,false);
	}
}
inline std::string mutate(Rng&r,std::string s){ if(s.empty()) return "x"; switch(r.below(6)){ case 0: s+=" "; break; case 1: s=" "+s; break; case 2: s[0]=(char)toupper(s[0]); break; case 3: s.pop_back(); break; case 4: s+="s"; break; default: s[r.below(s.size())]='_'; } return s; }
inline std::map<std::string,std::string> random_tags(Rng&r){
	static const std::vector<std::string> keys={"highway","junction","route","ferry","public_transport","railway","access","crossing","motorcar","motor_vehicle","oneway","maxspeed","name","ref","bicycle","cycleway","cycleway:left","cycleway:right","cycleway:both","oneway:bicycle"};
	std::map<std::string,std::string> t; unsigned dens=r.pick({3u,6u,10u,16u});
	for(auto&k:keys){
		bool on = k=="highway"?!r.chance(1,12) : (k=="junction"||k=="route"||k=="ferry"||k=="public_transport"||k=="railway")?r.chance(1,dens*3):r.chance(2,dens);
		if(!on) continue;
		std::string v;
		if(k=="highway") v=r.pick(HIGHWAY);
		else if(k=="junction") v=r.pick(std::vector<std::string>{"roundabout","circular","yes","no","mini_roundabout"});
		else if(k=="route"||k=="ferry") v=r.pick(std::vector<std::string>{"ferry","yes","no","bus","road"});
		else if(k=="public_transport"||k=="railway") v=r.pick(STOP);
		else if(k=="oneway"||k=="oneway:bicycle") v=r.pick(ONEWAY);
		else if(k=="maxspeed") v=speed(r);
		else if(k=="name"||k=="ref") v=r.pick(std::vector<std::string>{"Main Street","A 5","","B 10;B 27","Stra\xc3\x9f""e","x"});
		else if(k.substr(0,8)=="cycleway") v=r.pick(CYCLE);
		else v=r.pick(ACCESS);
		if(r.chance(1,14)) v=mutate(r,v);
		if(r.chance(1,60)) v=hostile(r,false);
		t[k]=v;
	}
	// keys that must not be taken for the real ones
	if(r.chance(1,4)){ static const std::vector<std::string> near={"Highway","highway:","oneway:bus","maxspeed:forward","acces","cycleway:lef","motorcars","note","area","Oneway","name:en","reF","junctions",""}; std::string k=r.pick(near); t[k]=r.pick(std::vector<std::string>{"no","yes","motorway","50","-1"}); }
	for(unsigned i=r.chance(1,10)?r.below(60):0;i>0;--i) t["k"+std::to_string(r.below(500))]="no";
	return t;
}
}
