// Independent, table driven model of the OSM tag rules of the three profiles.
#pragma once
#include <map>
#include <set>
#include <string>
#include <vector>
#include <cctype>
namespace pm{
typedef std::map<std::string,std::string> Tags;
typedef std::set<std::string> S;
inline const std::string*get(const Tags&t,const char*k){ auto i=t.find(k); return i==t.end()?nullptr:&i->second; }
inline bool is(const Tags&t,const char*k,const S&v){ auto p=get(t,k); return p&&v.count(*p); }
inline bool is(const Tags&t,const char*k,const char*v){ auto p=get(t,k); return p&&*p==v; }
inline bool has(const Tags&t,const char*k){ return get(t,k)!=nullptr; }

static const S PED={"secondary","tertiary","unclassified","residential","service","secondary_link","tertiary_link","living_street","track","bicycle_road","path","footway","cycleway","bridleway","pedestrian","escape","steps","crossing","escalator","elevator","platform","ferry"};
static const S CAR={"motorway","trunk","primary","secondary","tertiary","unclassified","residential","service","motorway_link","trunk_link","primary_link","secondary_link","tertiary_link","motorway_junction","living_street","track","ferry"};
static const S NOCAR={"construction","path","footway","cycleway","bridleway","pedestrian","bus_guideway","raceway","escape","steps","proposed","conveying"};
static const S BIKE={"secondary","tertiary","unclassified","residential","service","secondary_link","tertiary_link","living_street","track","bicycle_road","primary","primary_link","path","footway","cycleway","bridleway","pedestrian","crossing","escape","steps","ferry"};
static const S ACC_CAR={"yes","permissive","delivery","designated","destination"};
static const S ACC_SLOW={"yes","permissive","delivery","designated","destination","agricultural","forestry","public"};

inline bool car(const Tags&t){
	if(has(t,"junction")||is(t,"route","ferry")||is(t,"ferry","yes")) return true;
	auto h=get(t,"highway"); if(!h||is(t,"motorcar","no")||is(t,"motor_vehicle","no")||(has(t,"access")&&!is(t,"access",ACC_CAR))) return false;
	if(CAR.count(*h)) return true;
	if(*h=="bicycle_road") return is(t,"motorcar","yes");
	if(NOCAR.count(*h)||is(t,"oneway",S{"reversible","alternating"})) return false;
	return has(t,"maxspeed");
}
inline bool pedestrian(const Tags&t){
	if(has(t,"junction")||is(t,"route","ferry")||is(t,"ferry","ferry")) return true;
	if(is(t,"public_transport",S{"stop_position","platform","stop_area","station"})) return true;
	if(is(t,"railway",S{"halt","platform","subway_entrance","station","tram_stop"})) return true;
	auto h=get(t,"highway"); if(!h||(has(t,"access")&&!is(t,"access",ACC_SLOW))||is(t,"crossing","no")) return false;
	return PED.count(*h);
}
inline bool bicycle(const Tags&t){
	if(has(t,"junction")||is(t,"route","ferry")||is(t,"ferry","ferry")) return true;
	auto h=get(t,"highway"); if(!h||*h=="proposed"||(has(t,"access")&&!is(t,"access",ACC_SLOW))||is(t,"bicycle",S{"no","use_sidepath"})) return false;
	for(auto k:{"cycleway","cycleway:left","cycleway:right","cycleway:both"}) if(has(t,k)) return true;
	return BIKE.count(*h);
}
// 0 both, 1 forwards, 2 backwards, 3 closed; -1: not specified
inline int car_dir(const Tags&t){
	if(has(t,"oneway")){
		if(is(t,"oneway",S{"-1","reverse","backward"})) return 2;
		if(is(t,"oneway",S{"yes","true","1"})) return 1;
		if(is(t,"oneway",S{"no","false","0"})) return 0;
		if(is(t,"oneway",S{"reversible","alternating"})) return 3;
		return -1;
	}
	if(is(t,"junction","roundabout")||is(t,"highway",S{"motorway","motorway_link"})) return 1;
	return 0;
}
inline int bicycle_dir(const Tags&t){
	if(has(t,"oneway:bicycle")){
		if(is(t,"oneway:bicycle",S{"-1","opposite"})) return 2;
		if(is(t,"oneway:bicycle",S{"1","yes","true","no_planned"})) return 1;
		if(is(t,"oneway:bicycle",S{"0","no","false","tolerated","permissive"})) return 0;
		return 3;
	}
	if(!has(t,"oneway")||is(t,"oneway",S{"no","false","0"})) return 0;
	if(is(t,"cycleway",S{"opposite","opposite_track","opposite_lane","opposite_share_busway"})||has(t,"cycleway:both")||(has(t,"cycleway:left")&&has(t,"cycleway:right"))) return 0;
	if(is(t,"oneway",S{"-1","reverse","backward"})) return 2;
	if(is(t,"oneway",S{"yes","true","1"})) return 1;
	return 3;
}
inline int comfort(const Tags&t){
	if(is(t,"highway","cycleway")) return 4;
	if(has(t,"cycleway")) return is(t,"cycleway","track")?3:2;
	if(is(t,"highway",S{"primary","primary_link"})||is(t,"bicycle","dismount")) return 0;
	return 1;
}
inline std::string name(const Tags&t){ auto n=get(t,"name"),r=get(t,"ref"); if(n&&r) return *n+";"+*r; return n?*n:r?*r:std::string(); }
// one element of a maxspeed list: -1 no information, -2 not specified
inline long one_speed(const std::string&v){
	static const std::map<std::string,long> fixed={{"none",130},{"unlimited",130},{"walk",5},{"foot",5},{"walking_pace",5},{"schritt",5},{"urban",40},{"living_street",10},{"de:rural",100},{"at:rural",100},{"ro:rural",100},{"rural",100},{"ru:rural",90},{"ua:rural",90},{"ru:motorway",110},{"ch:motorway",120},{"at:motorway",130},{"ro:motorway",130},{"de:motorway",130},{"national",100},{"ro:trunk",100},{"dk:rural",80},{"ch:rural",80},{"fr:rural",80},{"it:rural",90},{"hu:rural",90},{"de:zone:30",30},{"de:zone30",30},{"at:zone30",30}};
	if(v.find('?')!=std::string::npos) return -2;
	auto i=fixed.find(v); if(i!=fixed.end()) return i->second;
	if(v.size()>3&&v[2]==':'){ std::string s=v.substr(3); if(s=="walk") return 5; if(s=="urban") return 40; if(s=="living_street") return 10; }
	size_t d=0; while(d<v.size()&&v[d]>='0'&&v[d]<='9') ++d;
	if(d==0) return -1;
	size_t z=0; while(z<d&&v[z]=='0') ++z;
	if(d-z>6) return -2;
	long n=atol(v.substr(0,d).c_str()); size_t e=d; while(e<v.size()&&v[e]==' ') ++e; std::string u=v.substr(e);
	return u=="mph"?n*1609/1000:u=="knots"?n*1852/1000:n;
}
// -1: only known to be positive
inline long speed(const Tags&t){
	auto m=get(t,"maxspeed"); long best=-1;
	if(m&&*m!="unposted"){
		if(m->size()>1000) return -1;
		std::string s=*m; for(auto&ch:s) if(ch>='A'&&ch<='Z') ch=(char)(ch+32);
		for(size_t p=0;;){
			size_t q=s.find(';',p); std::string v=s.substr(p,q==std::string::npos?q:q-p); size_t b=v.find_first_not_of(' '); v= b==std::string::npos?"":v.substr(b);
			long x=one_speed(v); if(x==-2) return -1; if(x>=0&&(best<0||x<best)) best=x;
			if(q==std::string::npos) break; p=q+1;
		}
		if(best==0) best=1;
		if(best>0) return best;
	}
	static const std::map<std::string,long> def={{"motorway",90},{"motorway_link",45},{"trunk",85},{"trunk_link",40},{"primary",65},{"primary_link",30},{"secondary",55},{"secondary_link",25},{"tertiary",40},{"tertiary_link",20},{"unclassified",25},{"residential",25},{"living_street",10},{"service",8},{"track",8},{"ferry",5}};
	auto h=get(t,"highway"); if(h){ auto i=def.find(*h); if(i!=def.end()) return i->second; }
	if(has(t,"junction")) return 20;
	if(is(t,"route","ferry")||has(t,"ferry")) return 5;
	return 50;
}
}
