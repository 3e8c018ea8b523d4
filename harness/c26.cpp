// C26: damaged OSM PBF files. Monitors: sanitizers, a watchdog (runner) for hangs, descriptor and heap growth counters,
// and a consistency oracle: damage that makes a block inconsistent must surface as an exception.
#include "vh.h"
#include "pbf.h"
#include <routingkit/osm_decoder.h>
#include <dirent.h>
#include <unistd.h>
using namespace RoutingKit;
using namespace vh;
using namespace pbf;
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static size_t heap(){ return __sanitizer_get_current_allocated_bytes(); }
#else
static size_t heap(){ return 0; }
#endif

static unsigned open_fds(){ unsigned n=0; DIR*d=opendir("/proc/self/fd"); if(!d) return 0; while(readdir(d)) ++n; closedir(d); return n; }
static std::string fd_list(){ std::string s; DIR*d=opendir("/proc/self/fd"); if(!d) return s; while(dirent*e=readdir(d)){ char b[200]; std::string p=std::string("/proc/self/fd/")+e->d_name; ssize_t k=readlink(p.c_str(),b,199); if(k>0) s+=std::string(b,k)+" "; } closedir(d); return s; }
struct Outcome{ bool threw=false; uint64_t events=0, hash=1; };

static Outcome read_it(const std::string&fn, int mode, unsigned mask){
	Outcome o;
	auto tg=[&](const TagMap&t){ for(auto&x:t){ o.hash=hcombine(o.hash,hstr(x.key)); o.hash=hcombine(o.hash,hstr(x.value)); } };
	std::function<void(uint64_t,double,double,const TagMap&)> n=[&](uint64_t id,double la,double lo,const TagMap&t){ ++o.events; o.hash=hcombine(o.hash,id); o.hash=hcombine(o.hash,(uint64_t)(int64_t)(la*1e6)); o.hash=hcombine(o.hash,(uint64_t)(int64_t)(lo*1e6)); tg(t); };
	std::function<void(uint64_t,const std::vector<uint64_t>&,const TagMap&)> w=[&](uint64_t id,const std::vector<uint64_t>&l,const TagMap&t){ ++o.events; o.hash=hcombine(o.hash,id); o.hash=hvec(l,o.hash); tg(t); };
	std::function<void(uint64_t,const std::vector<OSMRelationMember>&,const TagMap&)> r=[&](uint64_t id,const std::vector<OSMRelationMember>&l,const TagMap&t){ ++o.events; o.hash=hcombine(o.hash,id); for(auto&m:l){ o.hash=hcombine(o.hash,m.id+(int)m.type); o.hash=hcombine(o.hash,hstr(m.role)); } tg(t); };
	if(!(mask&1)) n=nullptr;
	if(!(mask&2)) w=nullptr;
	if(!(mask&4)) r=nullptr;
	beat();
	try{
		if(mode==0) unordered_read_osm_pbf(fn,n,w,r); else ordered_read_osm_pbf(fn,n,w,r,[](const std::string&){},mode==2);
	}catch(std::exception&){ o.threw=true; }
	beat();
	return o;
}

// message surgery: a parsed protobuf message whose fields can be edited
struct Field{ unsigned f; int wire; uint64_t v; std::string s; };
static std::vector<Field> parse(const std::string&m){
	std::vector<Field> o; size_t p=0; auto vi=[&]{ uint64_t x=0; for(unsigned s=0;;s+=7){ unsigned char b=m[p++]; x|=(uint64_t)(b&127)<<s; if(!(b&128)) return x; } };
	while(p<m.size()){ uint64_t h=vi(); Field f{(unsigned)(h>>3),(int)(h&7),0,""}; if(f.wire==0) f.v=vi(); else { uint64_t n=vi(); f.s=m.substr(p,n); p+=n; } o.push_back(f); }
	return o;
}
static std::string emit(const std::vector<Field>&l){ std::string o; for(auto&f:l) if(f.wire==0) vfield(o,f.f,f.v); else sfield(o,f.f,f.s); return o; }
static std::vector<uint64_t> unpack(const std::string&s){ std::vector<uint64_t> r; size_t p=0; while(p<s.size()){ uint64_t x=0; for(unsigned k=0;;k+=7){ unsigned char b=s[p++]; x|=(uint64_t)(b&127)<<k; if(!(b&128)) break; } r.push_back(x); } return r; }
static std::string pack(const std::vector<uint64_t>&v){ std::string s; for(auto x:v) varint(s,x); return s; }

// damages a primitive block so that it is inconsistent for certain; returns what was done ("" if not possible here); kind of the affected elements
static std::string break_block(Rng&r, std::string&pb, int&kind){
	auto top=parse(pb); size_t table=0; std::vector<size_t> groups;
	for(size_t i=0;i<top.size();++i){ if(top[i].f==1) table=parse(top[i].s).size(); if(top[i].f==2) groups.push_back(i); }
	if(r.chance(1,12)){ for(auto&f:top) if(f.f==17){ f.v=0; pb=emit(top); kind=7; return "granularity 0"; } top.push_back({17,0,0,""}); pb=emit(top); kind=7; return "granularity 0"; }
	r.shuffle(groups);
	for(auto gi:groups){
		auto g=parse(top[gi].s); if(g.empty()) continue;
		size_t ei=r.below(g.size()); auto e=parse(g[ei].s); unsigned ek=g[ei].f; std::string what;
		kind = ek<=2?1: ek==3?2:4;
		auto find=[&](unsigned f)->Field*{ for(auto&x:e) if(x.f==f) return &x; return nullptr; };
		auto bad=[&]{ return r.chance(1,2)? (uint64_t)table : r.chance(1,2)? table+1+r.below(1000) : (r.next()>>r.below(40)&0x7fffffff)+table; };
		unsigned choice=r.below(6);
		auto drop=[&](std::vector<unsigned> fs){ unsigned f=r.pick(fs); for(size_t i=0;i<e.size();++i) if(e[i].f==f&&e[i].wire==2&&!e[i].s.empty()){ e.erase(e.begin()+i); what=fmt("list %u missing",f); return; } };
		if(r.chance(1,4)){ if(ek==2) drop({1,8,9}); else if(ek==4) drop({2,3,8,9,10}); else drop({2,3}); }
		else if(ek==2){
			if(choice<2){ Field*kv=find(10); if(kv){ auto v=unpack(kv->s); std::vector<size_t> nz; for(size_t i=0;i<v.size();++i) if(v[i]) nz.push_back(i); if(!nz.empty()){ v[r.pick(nz)]=bad(); kv->s=pack(v); what="dense string id out of range"; } } }
			else if(choice<5){ unsigned f=r.pick({8u,9u,1u}); Field*x=find(f); if(x){ auto v=unpack(x->s); if(r.chance(1,2)&&v.size()>1) v.pop_back(); else v.push_back(2); x->s=pack(v); what="dense lists of unequal length"; } }
			else { Field*kv=find(10); if(kv){ auto v=unpack(kv->s); v.push_back(0); kv->s=pack(v); what="too many dense tags"; } }
		}else{
			if(choice<2){ Field*x=find(2+r.below(2)); if(x){ auto v=unpack(x->s); v[r.below(v.size())]=bad(); x->s=pack(v); what="string id out of range"; } }
			else if(choice<4){ Field*x=find(2+r.below(2)); if(x){ auto v=unpack(x->s); if(r.chance(1,2)) v.pop_back(); else v.push_back(0); x->s=pack(v); what="unequal key and value lists"; } }
			else if(ek==4 && choice==4){ Field*x=find(8); if(x){ auto v=unpack(x->s); v[r.below(v.size())]=bad(); x->s=pack(v); what="role id out of range"; } }
			else if(ek==4){ Field*x=find(r.pick({8u,9u,10u})); if(x){ auto v=unpack(x->s); if(x->f==10&&r.chance(1,2)) v[r.below(v.size())]=3+r.below(10); else if(r.chance(1,3)) v.push_back(0); else v.pop_back(); x->s=pack(v); what="member lists of unequal length or unknown member type"; } }
			else { for(size_t i=0;i<e.size();++i) if(e[i].f==1){ e.erase(e.begin()+i); what="element without id"; break; } }
		}
		if(!what.empty()){ g[ei].s=emit(e); top[gi].s=emit(g); pb=emit(top); return what; }
	}
	return "";
}

void vh_case(Case&c){
	Rng&r=c.rng;
	std::vector<Elem> el; unsigned n=r.below(30); std::vector<std::string> pool{"highway","residential","name","yes","from","to","via","oneway","x"};
	for(unsigned i=0;i<n;++i){ Elem x; x.kind=r.below(3); x.id=1+r.below(1000000); x.lat=(int64_t)r.below(1000000)*100; x.lon=(int64_t)r.below(1000000)*100;
		std::set<std::string> used; for(unsigned k=r.below(4);k--;){ auto s=r.pick(pool); if(used.insert(s).second) x.tags.push_back({s,r.pick(pool)}); }
		for(unsigned k=r.below(5);k--;){ if(x.kind==1) x.refs.push_back(r.below(1000)); if(x.kind==2) x.members.push_back({(int)r.below(3),(int64_t)r.below(1000),r.pick(pool)}); }
		el.push_back(x); }
	auto blocks=layout(el,r); Writer w; w.r=&r;
	std::string fn=c.scratch+"/d.pbf";
	// the pieces of the file
	std::vector<std::string> prim, pieces; pieces.push_back(w.header(false));
	for(auto&b:blocks){ prim.push_back(w.primitive_block(b)); pieces.push_back(w.file_block("OSMData",w.blob(prim.back()))); }
	std::string whole; for(auto&p:pieces) whole+=p;
	unsigned rounds = c.is_rel()?8:4;
	for(unsigned k=0;k<rounds;++k){
		int mode=r.below(3); unsigned mask=r.chance(1,2)?7:1+r.below(7);
		std::string d=whole, what; bool must_throw=false, same_or_throw=false;
		unsigned kind=r.below(16);
		switch(kind){
			case 0:{ d=whole.substr(0,r.below(whole.size()+1)); what=fmt("truncated to %zu of %zu",d.size(),whole.size());
				size_t p=0; bool in=false; for(size_t i=0;i<pieces.size();++i){ if(d.size()>=p+4&&d.size()<p+pieces[i].size()&&i>0) in=true; p+=pieces[i].size(); }
				must_throw=in; c.count("truncations"); break; }
			case 1:{ unsigned m=1+r.below(4); what="bytes changed:"; for(unsigned i=0;i<m;++i){ size_t p=r.below(d.size()); d[p]=(char)(r.chance(1,2)?r.next():d[p]^(1<<r.below(8))); what+=fmt(" %zu",p); } c.count("byte flips"); break; }
			case 2:{ size_t a=r.below(d.size()), b=r.below(d.size()), l=r.below(60); d.insert(a,d.substr(b,l)); what=fmt("%zu bytes copied from %zu to %zu",l,b,a); c.count("splices"); break; }
			case 3:{ size_t a=r.below(d.size()); d.erase(a,1+r.below(40)); what=fmt("bytes erased at %zu",a); c.count("splices"); break; }
			case 4:{ d.assign(r.below(200),'\0'); for(auto&ch:d) ch=(char)(r.chance(1,3)?0:r.next()); if(d.size()>4&&r.chance(2,3)){ d[0]=d[1]=0; d[2]=0; d[3]=(char)r.below(40); } what="random bytes"; c.count("random files"); break; }
			case 5: d.clear(); what="empty file"; c.count("empty files"); break;
			case 6: d=pieces[0].substr(0, r.chance(1,2)?pieces[0].size():r.below(pieces[0].size())); what="header only"; c.count("header only files"); break;
			case 7:{ std::string h=w.header(false); std::string b; if(r.chance(1,2)) sfield(b,4,r.pick(std::vector<std::string>{"DenseNodes","DenseNodesAndMuchMoreBehindIt","","D","DenseNodesX"})); if(r.chance(1,2)) sfield(b,5,r.pick(std::vector<std::string>{"Sort.Type_then_ID","Sort.Type_then_ID and much more than that","S"}));
				d=w.file_block("OSMHeader",b); for(size_t i=1;i<pieces.size();++i) d+=pieces[i]; if(r.chance(1,3)) d+=h; what="odd header"; c.count("odd headers"); break; }
			case 8: case 9: case 10: if(!prim.empty()){ // damage inside an otherwise correct compressed block
				size_t i=r.below(prim.size()); std::string p=prim[i];
				if(kind==8||r.chance(1,3)){ unsigned m=1+r.below(3); if(!p.empty()) for(unsigned j=0;j<m;++j) p[r.below(p.size())]=(char)(r.chance(1,2)?r.next():r.below(4)); what="bytes changed inside of a block"; c.count("damaged blocks"); }
				else { int el_kind=0; what=break_block(r,p,el_kind); if(what.empty()) what="nothing"; else { must_throw=(mask&el_kind)!=0; c.count("inconsistent blocks"); } }
				d.clear(); for(size_t j=0;j<pieces.size();++j) d+= j==i+1 ? w.file_block("OSMData",w.blob(p)) : pieces[j];
				break; } what="nothing"; break;
			case 11: if(!prim.empty()){ // damage of the compressed payload
				size_t i=r.below(prim.size()); std::string p=prim[i]; uLongf len=compressBound(p.size()); std::string z(len,'\0'); compress2((Bytef*)&z[0],&len,(const Bytef*)p.data(),p.size(),r.below(10)); z.resize(len);
				unsigned m=r.below(4); if(m==0) z.resize(r.below(z.size())); else if(m<3){ z[r.below(z.size())]^=(char)(1<<r.below(8)); } else { z.insert(r.below(z.size()),1,(char)r.next()); }
				std::string b; vfield(b,2,p.size()); sfield(b,3,z); d.clear(); for(size_t j=0;j<pieces.size();++j) d+= j==i+1 ? w.file_block("OSMData",b) : pieces[j];
				same_or_throw=true; what="compressed payload damaged"; c.count("damaged compressed data"); break; } what="nothing"; break;
			case 12: if(!prim.empty()){ // sizes that disagree
				size_t i=r.below(prim.size()); std::string p=prim[i]; uLongf len=compressBound(p.size()); std::string z(len,'\0'); compress2((Bytef*)&z[0],&len,(const Bytef*)p.data(),p.size(),5); z.resize(len);
				uint64_t size=p.size(); switch(r.below(4)){ case 0: size+=1+r.below(100); break; case 1: size= size?r.below(size):size+1; break; case 2: size=(64u<<20)-4-r.below(3)+3*r.below(3); break; default: size=r.next()>>r.below(40); } if(size==p.size()) ++size;
				std::string b; unsigned form=r.below(5);
				if(form==0){ sfield(b,1,p); vfield(b,2,size); } else if(form<3){ vfield(b,2,size); sfield(b,3,z); } else if(form==3){ vfield(b,2,p.size()); } else { vfield(b,2,p.size()); sfield(b,1,p); sfield(b,3,z); }
				d.clear(); for(size_t j=0;j<pieces.size();++j) d+= j==i+1 ? w.file_block("OSMData",b) : pieces[j];
				must_throw=true; what=fmt("announced size %llu of a block of %zu bytes, form %u",(unsigned long long)size,p.size(),form); c.count("size mismatches"); break; } what="nothing"; break;
			case 13:{ // absurd lengths in the outer framing
				uint32_t len=r.pick({0xffffffffu,0x7fffffffu,0x04000001u,0x04000000u,0u,1u}); std::string x; for(int s=24;s>=0;s-=8) x.push_back((char)(len>>s)); size_t i=r.below(pieces.size()+1); d.clear(); for(size_t j=0;j<=pieces.size();++j){ if(j==i) d+=x; if(j<pieces.size()) d+=pieces[j]; } what="absurd header length"; c.count("absurd lengths"); break; }
			case 14:{ std::string h; sfield(h,1,r.chance(1,2)?r.pick(std::vector<std::string>{"OSMData","OSMHeader","Whatever",""}):std::string(r.below(70),'O')); if(r.chance(3,4)) vfield(h,3,r.pick({0xffffffffull,0x7fffffffull,(64ull<<20)+1,1ull<<40,0ull,5ull})); std::string x; uint32_t l=h.size(); for(int s=24;s>=0;s-=8) x.push_back((char)(l>>s)); d=whole+x+h; what="absurd data length"; c.count("absurd lengths"); break; }
			default:{ std::string missing=c.scratch+"/missing"; if(r.chance(1,2)) missing=c.scratch; auto o=read_it(missing,mode,mask); VH_REQUIRE(o.threw,"reading a missing file or a directory did not throw"); what="missing file"; c.count("missing files"); break; }
		}
		c.desc=fmt("%s; mode %d handlers %u, file of %zu bytes, %zu blocks",what.c_str(),mode,mask,d.size(),blocks.size());
		unsigned fds=open_fds();
		write_file(fn,d);
		Outcome o=read_it(fn,mode,mask);
		c.count(o.threw?"reads ended by an exception":"reads ended normally"); c.count("elements seen",o.events);
		if(unsigned now=open_fds()-fds){ // only a descriptor that stays open for good is a leak: three more reads must add three more
			std::string l=fd_list(); unsigned f1=open_fds(); for(int i=0;i<3;++i) read_it(fn,mode,mask);
			VH_REQUIRE(open_fds()<f1+3,"each read leaks descriptors (%d more after the first, %u before, open: %s)",(int)now,fds,l.c_str()); c.count("transient descriptor changes"); fprintf(stderr,"transient: before %u change %d: %s\n",fds,(int)now,l.c_str());
		}
		if(must_throw) VH_REQUIRE(o.threw,"an inconsistent file was read without an exception");
		if(same_or_throw && !o.threw){ write_file(fn,whole); Outcome g=read_it(fn,mode,mask); VH_REQUIRE(!g.threw&&g.hash==o.hash&&g.events==o.events,"damaged compressed data was accepted and read differently"); write_file(fn,d); }
		if(must_throw||same_or_throw) c.count("damages that must not pass");
		if(c.is_asan() && (k==0||what[0]=='c')){ // repeated reading must not grow the heap
			size_t h0=heap(); for(int i=0;i<2;++i){ Outcome p=read_it(fn,mode,mask); VH_REQUIRE(p.threw==o.threw&&(p.threw||p.events==o.events),"the same file was read differently"); } size_t h1=heap(); size_t grown=h1>h0?h1-h0:0;
			if(grown>512){ h0=heap(); for(int i=0;i<3;++i) read_it(fn,mode,mask); h1=heap(); VH_REQUIRE(h1<=h0+512,"each read leaks about %zu bytes",(h1-h0)/3); }
			c.count("leak checks");
		}
		if(kind!=5&&kind<15) c.nontrivial(hstr(d));
	}
	unlink(fn.c_str());
	c.sample(c.desc);
}
