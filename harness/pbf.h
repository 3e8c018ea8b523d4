// Independent OSM PBF writer (OSM file format, not the library's reader) with randomised layout.
#pragma once
#include "vh.h"
#include <zlib.h>
#include <utility>

namespace pbf{
using vh::Rng;
typedef std::vector<std::pair<std::string,std::string>> Tags;
struct Member{ int type; int64_t id; std::string role; bool operator==(const Member&o)const{ return type==o.type&&id==o.id&&role==o.role; } };
struct Elem{
	int kind=0;              // 0 node 1 way 2 relation
	int64_t id=0;
	int64_t lat=0, lon=0;    // nano degrees
	std::vector<int64_t> refs;
	std::vector<Member> members;
	Tags tags;
};
struct Group{ bool dense=false; std::vector<Elem> elems; };
struct Block{ int64_t granularity=100, lat_offset=0, lon_offset=0; std::vector<Group> groups; std::string filler; };

inline void varint(std::string&o, uint64_t x){ while(x>=128){ o.push_back((char)(x|128)); x>>=7; } o.push_back((char)x); }
inline uint64_t zig(int64_t x){ return ((uint64_t)x<<1) ^ (uint64_t)(x>>63); }
inline void vfield(std::string&o, unsigned f, uint64_t x){ varint(o,f<<3); varint(o,x); }
inline void sfield(std::string&o, unsigned f, const std::string&s){ varint(o,f<<3|2); varint(o,s.size()); o+=s; }

struct StringTable{
	std::vector<std::string> list{""}; std::map<std::string,unsigned> idx; bool dedup=true;
	unsigned get(const std::string&s){
		auto it=idx.find(s); if(it!=idx.end()&&dedup) return it->second;
		list.push_back(s); return idx[s]=list.size()-1;
	}
};

struct Writer{
	Rng*r=nullptr;                 // layout choices; nullptr: canonical layout
	bool coin(unsigned a, unsigned b){ return r && r->chance(a,b); }

	std::string info(){ std::string s; vfield(s,1,1+ (r?r->below(5):0)); if(coin(1,2)) vfield(s,2,r->next()>>30); if(coin(1,2)) vfield(s,5,0); return s; }
	// concatenates message parts in a random order (protobuf fields may come in any order)
	std::string join(std::vector<std::string> parts){ if(coin(1,5)) r->shuffle(parts); std::string s; for(auto&p:parts) s+=p; return s; }
	template<class V,class F> static std::string packed(unsigned f, const V&v, const F&enc){ std::string p; for(auto&x:v) varint(p,enc(x)); std::string o; if(!p.empty()) sfield(o,f,p); return o; }

	std::string tags_kv(const Tags&t, StringTable&st, unsigned fk, unsigned fv, std::vector<std::string>&parts){
		std::vector<uint64_t> k,v; for(auto&x:t){ k.push_back(st.get(x.first)); v.push_back(st.get(x.second)); }
		parts.push_back(packed(fk,k,[](uint64_t x){return x;})); parts.push_back(packed(fv,v,[](uint64_t x){return x;})); return "";
	}
	std::string group(const Block&b, const Group&g, StringTable&st){
		std::string out;
		if(g.dense){
			std::vector<uint64_t> id,lat,lon,kv; int64_t pi=0,pa=0,po=0; bool any=false;
			for(auto&e:g.elems) if(!e.tags.empty()) any=true;
			for(auto&e:g.elems){
				int64_t a=(e.lat-b.lat_offset)/b.granularity, o=(e.lon-b.lon_offset)/b.granularity;
				id.push_back(zig((int64_t)((uint64_t)e.id-(uint64_t)pi))); lat.push_back(zig(a-pa)); lon.push_back(zig(o-po)); pi=e.id; pa=a; po=o;
				if(any){ for(auto&t:e.tags){ kv.push_back(st.get(t.first)); kv.push_back(st.get(t.second)); } kv.push_back(0); }
			}
			auto same=[](uint64_t x){return x;};
			std::vector<std::string> parts{packed(1,id,same)};
			if(coin(1,3)){ std::string di; std::vector<uint64_t> ver(id.size(),1); di=packed(1,ver,same); std::string s; sfield(s,5,di); parts.push_back(s); }
			parts.push_back(packed(8,lat,same)); parts.push_back(packed(9,lon,same));
			if(any || coin(1,6)){ if(!any) for(size_t i=0;i<id.size();++i) kv.push_back(0); parts.push_back(packed(10,kv,same)); }
			sfield(out,2,join(parts));
			return out;
		}
		for(auto&e:g.elems){
			std::vector<std::string> parts; std::string s;
			if(e.kind==0){
				vfield(s,1,zig(e.id)); parts.push_back(s);
				tags_kv(e.tags,st,2,3,parts);
				if(coin(1,3)){ s.clear(); sfield(s,4,info()); parts.push_back(s); }
				s.clear(); vfield(s,8,zig((e.lat-b.lat_offset)/b.granularity)); parts.push_back(s);
				s.clear(); vfield(s,9,zig((e.lon-b.lon_offset)/b.granularity)); parts.push_back(s);
				sfield(out,1,join(parts));
			}else if(e.kind==1){
				vfield(s,1,(uint64_t)e.id); parts.push_back(s);
				tags_kv(e.tags,st,2,3,parts);
				if(coin(1,3)){ s.clear(); sfield(s,4,info()); parts.push_back(s); }
				std::vector<uint64_t> d; int64_t p=0; for(auto x:e.refs){ d.push_back(zig((int64_t)((uint64_t)x-(uint64_t)p))); p=x; }
				parts.push_back(packed(8,d,[](uint64_t x){return x;}));
				sfield(out,3,join(parts));
			}else{
				vfield(s,1,(uint64_t)e.id); parts.push_back(s);
				tags_kv(e.tags,st,2,3,parts);
				if(coin(1,3)){ s.clear(); sfield(s,4,info()); parts.push_back(s); }
				std::vector<uint64_t> role,id,type; int64_t p=0;
				for(auto&m:e.members){ role.push_back(st.get(m.role)); id.push_back(zig((int64_t)((uint64_t)m.id-(uint64_t)p))); p=m.id; type.push_back(m.type); }
				auto same=[](uint64_t x){return x;};
				parts.push_back(packed(8,role,same)); parts.push_back(packed(9,id,same)); parts.push_back(packed(10,type,same));
				sfield(out,4,join(parts));
			}
		}
		return out;
	}
	std::string primitive_block(const Block&b){
		StringTable st; st.dedup=!coin(1,10);
		if(coin(1,5)) st.get("an unused string");
		if(!b.filler.empty()) st.get(b.filler);
		std::vector<std::string> groups;
		for(auto&g:b.groups) groups.push_back(group(b,g,st));
		std::string table; for(auto&s:st.list) sfield(table,1,s);
		std::vector<std::string> head;  std::string s; sfield(s,1,table); head.push_back(s);
		std::string gs; for(auto&g:groups) sfield(gs,2,g);
		head.push_back(gs);
		s.clear();
		if(b.granularity!=100||coin(1,3)) vfield(s,17,b.granularity);
		if(coin(1,4)) vfield(s,18,1000);
		if(b.lat_offset||coin(1,4)) vfield(s,19,(uint64_t)b.lat_offset);
		if(b.lon_offset||coin(1,4)) vfield(s,20,(uint64_t)b.lon_offset);
		head.push_back(s);
		return join(head);
	}
	std::string blob(const std::string&data){
		bool raw=coin(1,3);
		std::string s1,s2,s;
		if(raw){ sfield(s1,1,data); if(!coin(1,3)) vfield(s2,2,data.size()); /* the size is only mandatory for compressed data */ return coin(1,2)?s1+s2:s2+s1; }
		int level = r? (int)r->below(10) : 6; if(data.size()>(4u<<20)) level=1;
		uLongf n=compressBound(data.size()); std::string z(n,'\0');
		compress2((Bytef*)&z[0],&n,(const Bytef*)data.data(),data.size(),level); z.resize(n);
		vfield(s2,2,data.size()); sfield(s1,3,z); return coin(1,2)?s1+s2:s2+s1;
	}
	std::string file_block(const std::string&type, const std::string&blob_bytes){
		std::string h,s1; sfield(s1,1,type); h=s1; if(coin(1,6)) sfield(h,2,"index"); vfield(h,3,blob_bytes.size());
		std::string o; uint32_t n=h.size(); o.push_back((char)(n>>24)); o.push_back((char)(n>>16)); o.push_back((char)(n>>8)); o.push_back((char)n);
		return o+h+blob_bytes;
	}
	std::string header(bool sorted){
		std::string h; sfield(h,4,"OsmSchema-V0.6"); sfield(h,4,"DenseNodes"); if(sorted) sfield(h,5,"Sort.Type_then_ID"); sfield(h,16,"vh");
		return file_block("OSMHeader",blob(h));
	}
	std::string file(const std::vector<Block>&blocks, bool sorted=false){
		std::string o=header(sorted);
		for(auto&b:blocks){
			if(coin(1,10)) o+=file_block(coin(1,3)?"OSMIndex":std::string("OSMDataHeaderOfAnUnknownBlockTypeWithALongName").substr(0,8+r->below(35)),std::string(r->below(50),'x'));
			o+=file_block("OSMData",blob(primitive_block(b)));
		}
		return o;
	}
};

inline void write_file(const std::string&name, const std::string&data){
	FILE*f=fopen(name.c_str(),"wb"); if(!f) throw std::runtime_error("harness cannot write "+name);
	if(fwrite(data.data(),1,data.size(),f)!=data.size()){ fclose(f); throw std::runtime_error("harness cannot write "+name); } fclose(f);
}

// Distributes elements over blocks and groups, keeping their order.
inline std::vector<Block> layout(const std::vector<Elem>&e, Rng&r, bool free_coordinates=false){
	std::vector<Block> out; size_t i=0;
	unsigned bs=r.pick({1u,3u,20u,1000u}), gs=r.pick({1u,2u,10u,1000u});
	if(e.size()>50000){ bs=r.pick({8000u,100000u,400000u}); gs=r.pick({8000u,400000u}); }
	while(i<e.size()){
		Block b; 
		if(free_coordinates){}
		if(r.chance(1,3)) b.granularity=r.pick({1,10,50,100});   // every coordinate handed in is a multiple of 100
		if(r.chance(1,3)){ b.lat_offset=((int64_t)r.below(2000000)-1000000)*100; }
		if(r.chance(1,3)){ b.lon_offset=((int64_t)r.below(2000000)-1000000)*100; }
		size_t bend=std::min(e.size(),i+1+r.below(bs));
		while(i<bend){
			Group g; size_t gend=std::min(bend,i+1+r.below(gs)); int kind=e[i].kind; g.dense = kind==0 && r.chance(2,3);
			bool mixed=!g.dense && r.chance(1,10);
			while(i<gend && (e[i].kind==kind || mixed)) g.elems.push_back(e[i++]);
			b.groups.push_back(g);
		}
		if(r.chance(1,15)) b.groups.push_back(Group());
		out.push_back(b);
		if(r.chance(1,20)) out.push_back(Block());
	}
	return out;
}
}
