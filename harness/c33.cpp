// C33: tag maps against std::map, one map object rebuilt and cleared many times.
#include "vh.h"
#include <routingkit/tag_map.h>
#include <deque>
using namespace RoutingKit;
using namespace vh;

static const char*REAL[]={"highway","oneway","maxspeed","name","access","bicycle","foot","junction","motor_vehicle","motorcar","cycleway","cycleway:left","cycleway:right","sidewalk","ref","route","duration","barrier","railway","surface","maxspeed:forward","maxspeed:backward","type","restriction","except","building","addr:street","addr:housenumber","source","oneway:bicycle","bicycle:oneway","smoothness","tracktype","lanes","bridge","tunnel","service","area","public_transport","crossing","",};

static std::string word(Rng&r){
	switch(r.below(6)){
		case 5:{ static const unsigned L[]={8,15,16,17,31,32,33,63,64,65,127,128,129,255,256,257,300,1024}; std::string s(L[r.below(18)]+(r.chance(1,4)?r.below(3):0),'q'); unsigned n=s.size(); unsigned p=r.chance(1,2)?n-2:1+r.below(n-2); if(r.chance(3,4)&&p!=(n-1)/2) s[p]="rstu"[r.below(4)]; return s; } // long keys that differ in one place
		case 0: return REAL[r.below(sizeof(REAL)/sizeof(*REAL))];
		case 1:{ std::string s(1+r.below(3),'a'); for(auto&ch:s) ch="etaoinshrETAbx"[r.below(14)]; return s; }
		case 2:{ std::string s(r.below(20),'a'); for(auto&ch:s) ch=(char)(1+r.below(255)); return s; }
		case 3:{ std::string s="key"; s+=std::to_string(r.below(4000)); s+="x"; return s; }   // many collisions
		default:{ std::string s(7,'x'); s[0]="aA"[r.below(2)]; s[6]="eE"[r.below(2)]; for(int i:{1,2,4,5}) s[i]=(char)('a'+r.below(5)); return s; } // same hash, different strings
	}
}

void vh_case(Case&c){
	Rng&r=c.rng;
	TagMap m; std::map<std::string,const char*> model; uint64_t h=1;
	std::deque<std::string> storage, old;   // the strings of the current content; older ones are destroyed
	unsigned steps=2+r.below(8);
	std::vector<std::string> probes;
	for(unsigned st=0;st<steps;++st){
		unsigned op=r.below(10);
		if(op<7){
			storage.clear(); model.clear();
			unsigned n = r.chance(1,6)?0: r.chance(1,40)?(unsigned)r.below(3000): r.chance(1,3)?1+(unsigned)r.below(3): (unsigned)r.below(30);
			if(c.idx%701==3 && st==0) n=r.pick({65535u,65536u,65537u,70000u,140000u});
			std::vector<const char*>k,v; std::set<std::string> used;
			for(unsigned i=0;i<n;++i){
				std::string w = n>5000 ? "k"+std::to_string(i) : word(r); if(!used.insert(w).second) continue;
				storage.push_back(w); k.push_back(storage.back().c_str());
				storage.push_back("v"+std::to_string(r.below(100))); v.push_back(storage.back().c_str());
				model[w]=v.back(); probes.push_back(w);
			}
			c.desc=fmt("build with %zu keys after %u operations",k.size(),st);
			m.build(k.size(),[&](unsigned i){ return k[i]; },[&](unsigned i){ return v[i]; });
			c.count("builds"); for(auto x:k) if(strlen(x)>255){ c.count("builds with keys longer than 255"); break; } if(k.size()>256) c.count("large builds"); if(k.size()>65536) c.count("builds with more than 65536 tags"); if(k.empty()) c.count("empty builds");
			h=hcombine(h,hcombine(k.size(),k.empty()?0:hstr(k[0])));
		}else if(op<9){ c.desc="clear"; m.clear(); model.clear(); storage.clear(); c.count("clears"); h=hcombine(h,77); }
		else{ TagMap n(m); TagMap o; o.build(1,[](unsigned){return "highway";},[](unsigned){return "old";}); o=n; m=std::move(o); c.count("copies"); }
		// iteration, counts
		VH_EQ((size_t)m.size(),model.size(),"size"); VH_REQUIRE(m.empty()==model.empty(),"empty");
		std::map<std::string,const char*> seen; size_t cnt=0;
		for(auto&e:m){ ++cnt; seen[e.key]=e.value; }
		VH_EQ(cnt,model.size(),"number of iterated entries");
		VH_REQUIRE(seen==model,"iteration does not yield the pairs of the map");
		for(auto&x:model){ std::string copy=x.first; const char*g=m[copy.c_str()]; VH_REQUIRE(g==x.second,"lookup of key \"%s\" gives %s instead of \"%s\"",copy.c_str(),g?g:"nothing",x.second); }
		c.count("hits",model.size());
		unsigned np=model.size()>1000?200:60;
		for(unsigned i=0;i<np;++i){
			std::string w = (i%2 && !probes.empty()) ? probes[r.below(probes.size())] : word(r);
			auto it=model.find(w); const char*g=m[w.c_str()];
			VH_REQUIRE(g==(it==model.end()?nullptr:it->second),"lookup of \"%s\" gives %s",w.c_str(),g?g:"nothing");
			if(!g) c.count("misses");
		}
		if(probes.size()>5000) probes.resize(2000);
	}
	c.nontrivial(h); c.sample(c.desc);
}
