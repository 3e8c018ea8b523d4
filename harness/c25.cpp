// C25: files written by an independent PBF writer, read by the library; the recorded callback trace is compared with the model.
#include "vh.h"
#include "pbf.h"
#include <routingkit/osm_decoder.h>
#include <cmath>
using namespace RoutingKit;
using namespace vh;
using namespace pbf;

struct Stop : std::runtime_error{ Stop():std::runtime_error("stop"){} };

static std::string text(Rng&r){
	std::string s; unsigned n= r.chance(1,30)? 100+r.below(400) : r.below(12);
	for(unsigned i=0;i<n;++i) s.push_back(r.chance(1,8)?(char)(1+r.below(255)):(char)('a'+r.below(26)));
	return s;
}
static Tags make_tags(Rng&r, const std::vector<std::string>&pool){
	Tags t; unsigned n=r.chance(1,3)?0:r.below(6); std::set<std::string> used;
	for(unsigned i=0;i<n;++i){ std::string k=r.chance(1,2)?r.pick(pool):text(r); if(used.insert(k).second) t.push_back({k,r.chance(1,2)?r.pick(pool):text(r)}); }
	return t;
}
static int64_t any_id(Rng&r){
	switch(r.below(6)){
		case 0: return (int64_t)r.below(10);
		case 1: return (int64_t)(r.next()>>2);
		case 2: return -2-(int64_t)r.below(1000);      // editors use negative ids for new elements
		default: return (int64_t)r.below(10000000000ull);
	}
}
struct Event{ int kind; uint64_t id; double lat,lon; std::vector<uint64_t> refs; std::vector<Member> members; std::map<std::string,std::string> tags; size_t ntags; };
static std::string show_tags(const std::map<std::string,std::string>&t){ std::string s="{"; for(auto&x:t) s+=x.first+"="+x.second+" "; return s+"}"; }

void vh_case(Case&c){
	Rng&r=c.rng;
	std::vector<std::string> pool{"highway","residential","name","yes","no","oneway","maxspeed","50","from","to","via","restriction","type","primary",""};
	std::vector<Elem> e;
	bool big = c.is_rel() && c.idx%997==5, huge_way = c.idx%97==3;
	unsigned n= r.chance(1,12)?0: r.chance(1,10)?(unsigned)r.below(3000):(unsigned)r.below(40);
	if(big) n=200;
	const bool many=c.large(299); if(many){ n=r.in(70000,150000); c.count("files with many elements"); }
	bool sorted=r.chance(1,2);
	for(unsigned i=0;i<n;++i){
		Elem x; x.kind=r.below(3); x.id=any_id(r); x.tags=make_tags(r,pool);
		x.lat=(int64_t)r.below(1800000001)*100-90000000000ll; x.lon=(int64_t)r.below(3600000001ull)*100-180000000000ll;
		if(r.chance(1,10)){ x.lat=r.pick({-90000000000ll,0ll,90000000000ll}); x.lon=r.pick({-180000000000ll,0ll,180000000000ll}); }
		unsigned k=r.chance(1,6)?0:r.below(8); if(huge_way&&i<3) k=c.is_rel()&&r.chance(1,3)?r.in(65530,70000):5000;
		if(huge_way&&i==3){ x.tags.clear(); unsigned z=huge_way&&c.idx%5==0?r.in(65530,68000):r.in(250,400); for(unsigned j=0;j<z;++j) x.tags.push_back({"key"+std::to_string(j),text(r)}); }
		if(x.kind==1) for(unsigned j=0;j<k;++j) x.refs.push_back(any_id(r));
		if(x.kind==2) for(unsigned j=0;j<k;++j) x.members.push_back({(int)r.below(3),any_id(r),r.chance(1,2)?r.pick(pool):text(r)});
		e.push_back(x);
	}
	if(sorted) std::stable_sort(e.begin(),e.end(),[](const Elem&a,const Elem&b){return a.kind<b.kind;});
	auto blocks=layout(e,r);
	// per block: change the coordinate system completely (granularity that does not divide 100, large offsets)
	for(auto&b:blocks) if(r.chance(1,3)){
		b.granularity=r.pick({1ll,7ll,100ll,1000ll,123456ll,10000000ll}); b.lat_offset=(int64_t)r.below(20000000000ull)-10000000000ll; b.lon_offset=(int64_t)r.below(40000000000ull)-20000000000ll;
		for(auto&g:b.groups) for(auto&x:g.elems){
			int64_t a=(x.lat-b.lat_offset)/b.granularity, o=(x.lon-b.lon_offset)/b.granularity;
			x.lat=b.lat_offset+a*b.granularity; x.lon=b.lon_offset+o*b.granularity;
		}
		c.count("blocks with unusual coordinate systems");
	}
	if(big){ for(auto&b:blocks) if(r.chance(1,2)||blocks.size()<30) b.filler=std::string(r.pick({3u<<20,20u<<20,31u<<20}),'x'); c.count("files with huge blocks"); }
	std::vector<Event> expect;
	for(auto&b:blocks) for(auto&g:b.groups) for(auto&x:g.elems){
		Event v; v.kind=x.kind; v.id=(uint64_t)x.id; v.lat=1e-9*x.lat; v.lon=1e-9*x.lon; for(auto i:x.refs) v.refs.push_back((uint64_t)i); v.members=x.members; for(auto&t:x.tags) v.tags[t.first]=t.second; v.ntags=x.tags.size();
		expect.push_back(v);
		c.count(x.kind==0?(g.dense?"dense nodes":"sparse nodes"):x.kind==1?"ways":"relations");
	}
	Writer w; w.r=&r; std::string data=w.file(blocks,sorted&&r.chance(1,2));
	std::string fn=c.scratch+"/f.pbf"; write_file(fn,data);
	unsigned passes = big?1:3; if(many) passes=2;
	for(unsigned pass=0;pass<passes;++pass){
		beat();
		int mode = r.below(sorted?3:2);  // 0 unordered 1 ordered 2 ordered, told that the file is sorted
		unsigned mask=1+r.below(7); if(r.chance(1,2)) mask=7;
		std::vector<const Event*> want;
		if(mode==0||mode==2){ for(auto&x:expect) if(mask>>x.kind&1) want.push_back(&x); }
		else for(int k=0;k<3;++k) for(auto&x:expect) if(x.kind==k && (mask>>k&1)) want.push_back(&x);
		uint64_t stop_at = r.chance(1,5)&&!want.empty() ? r.below(want.size()) : ~0ull;
		c.desc=fmt("file of %zu bytes, %zu blocks, %zu elements, mode %d handlers %u stop %lld",data.size(),blocks.size(),expect.size(),mode,mask,(long long)stop_at);
		uint64_t pos=0; bool stopped=false;
		auto check=[&](const Event&g){
			VH_REQUIRE(!stopped,"a handler was called after a handler had thrown");
			VH_REQUIRE(pos<want.size(),"element of kind %d id %llu delivered after all elements were delivered",g.kind,(unsigned long long)g.id);
			const Event&x=*want[pos];
			VH_REQUIRE(g.kind==x.kind&&g.id==x.id,"element %llu is kind %d id %llu instead of kind %d id %llu",(unsigned long long)pos,g.kind,(unsigned long long)g.id,x.kind,(unsigned long long)x.id);
			if(x.kind==0) VH_REQUIRE(std::fabs(g.lat-x.lat)<1e-8&&std::fabs(g.lon-x.lon)<1e-8,"node %lld is at %.9f %.9f instead of %.9f %.9f",(long long)x.id,g.lat,g.lon,x.lat,x.lon);
			VH_REQUIRE(g.refs==x.refs,"way %lld has the wrong node list",(long long)x.id);
			VH_REQUIRE(g.members==x.members,"relation %lld has the wrong members",(long long)x.id);
			VH_REQUIRE(g.tags==x.tags&&g.ntags==x.ntags,"kind %d id %lld has tags %s instead of %s",x.kind,(long long)x.id,show_tags(g.tags).c_str(),show_tags(x.tags).c_str());
			if(pos==stop_at){ stopped=true; throw Stop(); }
			++pos;
		};
		auto tags=[&](Event&g, const TagMap&t){ g.ntags=t.size(); for(auto&x:t) g.tags[x.key]=x.value; for(auto&x:g.tags){ const char*v=t[x.first.c_str()]; VH_REQUIRE(v&&x.second==v,"tag lookup of %s",x.first.c_str()); } VH_REQUIRE(t["no such tag at all"]==nullptr,"unexpected tag"); };
		std::function<void(uint64_t,double,double,const TagMap&)> fn_node=[&](uint64_t id,double la,double lo,const TagMap&t){ Event g{0,id,la,lo,{},{},{},0}; tags(g,t); check(g); };
		std::function<void(uint64_t,const std::vector<uint64_t>&,const TagMap&)> fn_way=[&](uint64_t id,const std::vector<uint64_t>&l,const TagMap&t){ Event g{1,id,0,0,l,{},{},0}; tags(g,t); check(g); };
		std::function<void(uint64_t,const std::vector<OSMRelationMember>&,const TagMap&)> fn_rel=[&](uint64_t id,const std::vector<OSMRelationMember>&l,const TagMap&t){
			Event g{2,id,0,0,{},{},{},0}; for(auto&m:l) g.members.push_back({m.type==OSMIDType::node?0:m.type==OSMIDType::way?1:2,(int64_t)m.id,m.role}); tags(g,t); check(g); };
		if(!(mask&1)) fn_node=nullptr;
		if(!(mask&2)) fn_way=nullptr;
		if(!(mask&4)) fn_rel=nullptr;
		bool threw=false;
		try{
			if(mode==0) unordered_read_osm_pbf(fn,fn_node,fn_way,fn_rel);
			else ordered_read_osm_pbf(fn,fn_node,fn_way,fn_rel,[](const std::string&){},mode==2);
		}catch(Stop&){ threw=true; }
		VH_REQUIRE(threw==stopped,"a handler %s but the call %s",stopped?"threw":"did not throw",threw?"threw":"returned normally");
		if(!stopped) VH_REQUIRE(pos==want.size(),"only %llu of %zu elements were delivered",(unsigned long long)pos,want.size());
		c.count("reads"); c.count("elements delivered",pos); if(stopped) c.count("handler exceptions"); if(mode==1) c.count("ordered reads"); if(mask!=7) c.count("reads with missing handlers");
	}
	if(expect.size()>2) c.nontrivial(hstr(data));
	c.sample(c.desc);
	unlink(fn.c_str());
}
