// C31: vector files: round trips, foreign reference encoding, damaged files, full devices, size limits and read faults.
#include "vh.h"
#include <routingkit/vector_io.h>
#include <sstream>
#include <csignal>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <cerrno>
#include <map>
#include <set>
#include <thread>
using namespace RoutingKit;
using namespace vh;

// ---- injected read faults (the standard library's file streams call read(2) through the dynamic linker)
static int fault_mode=0; static uint64_t fault_at=0, seen_bytes=0, injected=0;
#ifndef __SANITIZE_ADDRESS__
extern "C" ssize_t read(int fd, void*buf, size_t n){
	if(fault_mode && fd>2){
		if(fault_mode==1){ if(seen_bytes>=fault_at){ ++injected; errno=EIO; return -1; } if(n>fault_at-seen_bytes) n=fault_at-seen_bytes; }
		else if(n>3){ n=1+n/3; ++injected; }      // short reads are not errors
	}
	ssize_t r=syscall(SYS_read,fd,buf,n); if(fault_mode&&fd>2&&r>0) seen_bytes+=r; return r;
}
#endif

static std::string slurp(const std::string&fn){ std::string s; FILE*f=fopen(fn.c_str(),"rb"); VH_REQUIRE(f,"cannot open %s",fn.c_str()); char b[65536]; size_t n; while((n=fread(b,1,sizeof b,f))>0) s.append(b,n); fclose(f); return s; }
static void spit(const std::string&fn,const std::string&s){ FILE*f=fopen(fn.c_str(),"wb"); VH_REQUIRE(f,"cannot write %s",fn.c_str()); if(!s.empty()) fwrite(s.data(),1,s.size(),f); fclose(f); }
template<class F> static bool throws(const F&f){ try{ f(); return false; }catch(Violation&){ throw; }catch(std::exception&){ return true; } }
struct FileLimit{ rlimit old; explicit FileLimit(rlim_t n){ fflush(0); getrlimit(RLIMIT_FSIZE,&old); rlimit x=old; x.rlim_cur=n; setrlimit(RLIMIT_FSIZE,&x); } ~FileLimit(){ setrlimit(RLIMIT_FSIZE,&old); } };

static size_t pick_size(Rng&r){ switch(r.below(6)){ case 0: return 0; case 1: return 1; case 2: return r.below(20); case 3: return r.below(3000); case 4: return 511+r.below(4)+512*r.below(3); default: return r.chance(1,6)?r.below(200000):r.below(300); } }

struct Pod{ uint32_t a; uint16_t b, c; bool operator==(const Pod&o)const{ return a==o.a&&b==o.b&&c==o.c; } };
template<class T> static T val(Rng&r){ T x; uint64_t v=r.next(); if(r.chance(1,4)) v=r.chance(1,2)?~0ull:0; memcpy(&x,&v,sizeof(T)<8?sizeof(T):8); return x; }
template<> bool val<bool>(Rng&r){ return r.chance(1,2); }
template<class T> static bool bits_equal(const std::vector<T>&a,const std::vector<T>&b){ return a.size()==b.size()&&(a.empty()||!memcmp(a.data(),b.data(),a.size()*sizeof(T))); }

template<class Save,class Load> static void faults(Case&c,const std::string&fn,const std::string&content,const Save&save,const Load&load_equal,size_t buffered_size){
	Rng&r=c.rng;
	// writing
	VH_REQUIRE(throws([&]{ save(c.scratch+"/no/such/dir/file"); }),"saving to a path that does not exist did not throw"); c.count("unopenable destinations");
	VH_REQUIRE(throws([&]{ save(c.scratch); }),"saving to a directory did not throw");
	if(!content.empty() && access("/dev/full",W_OK)==0){ VH_REQUIRE(throws([&]{ save(std::string("/dev/full")); }),"saving %zu bytes to a full device did not throw",content.size()); c.count("full device writes"); }
	if(!content.empty() && c.is_rel()){
		uint64_t lim= r.chance(1,4)?content.size()-1: r.below(content.size()); bool t; { FileLimit l(lim); t=throws([&]{ save(fn+".lim"); }); }
		VH_REQUIRE(t,"saving %zu bytes with a limit of %llu bytes did not throw",content.size(),(unsigned long long)lim); c.count("size limited writes");
		{ FileLimit l(content.size()); save(fn+".lim"); } VH_REQUIRE(slurp(fn+".lim")==content,"file with a just sufficient limit differs"); unlink((fn+".lim").c_str());
	}
	// reading
	VH_REQUIRE(throws([&]{ load_equal(fn+".missing"); }),"loading a missing file did not throw"); c.count("missing files");
	if(c.is_rel() && !content.empty()){
		fault_mode=2; seen_bytes=0; injected=0; bool ok; try{ ok=load_equal(fn); }catch(...){ fault_mode=0; throw; } fault_mode=0; VH_REQUIRE(ok,"short reads changed the loaded data"); c.count("short reads",injected);
		fault_mode=1; fault_at=r.chance(1,3)?0:r.below(content.size()); seen_bytes=0; injected=0; bool t=throws([&]{ load_equal(fn); }); fault_mode=0;
		if(injected){ VH_REQUIRE(t,"a read error after %llu of %zu bytes was not reported",(unsigned long long)fault_at,content.size()); c.count("read errors injected"); }
	}
	(void)buffered_size;
}

template<class T> static void plain(Case&c,const char*name){
	Rng&r=c.rng; std::string fn=c.scratch+"/v"; size_t n=pick_size(r); std::vector<T> v(n); for(auto&x:v) x=val<T>(r);
	c.desc=fmt("vector<%s> of size %zu",name,n);
	std::string want((const char*)v.data(),n*sizeof(T));
	if(r.chance(1,3)) spit(fn,std::string(want.size()+r.below(50),'x'));  // longer old content
	save_vector(fn,v); VH_REQUIRE(slurp(fn)==want,"file content is not the raw vector"); auto w=load_vector<T>(fn); VH_REQUIRE(bits_equal(v,w),"loaded vector of size %zu differs",w.size());
	faults(c,fn,want,[&](const std::string&f){ save_vector(f,v); },[&](const std::string&f){ return bits_equal(load_vector<T>(f),v); },0);
	// impossible sizes
	if(sizeof(T)>1){ size_t extra=1+r.below(sizeof(T)-1); spit(fn,want+std::string(extra,'\1')); VH_REQUIRE(throws([&]{ load_vector<T>(fn); }),"a file of %zu bytes was accepted as a vector of %zu byte elements",want.size()+extra,sizeof(T)); c.count("impossible sizes"); }
	// single values
	T x=val<T>(r); save_value(fn,x); VH_EQ(slurp(fn).size(),sizeof(T),"size of a value file"); T y=load_value<T>(fn); VH_REQUIRE(!memcmp(&x,&y,sizeof(T)),"loaded value differs"); 
	save_vector(fn,v); if(n!=1){ VH_REQUIRE(throws([&]{ load_value<T>(fn); }),"a file with %zu elements was accepted as a single value",n); c.count("wrong element counts"); } else { T z=load_value<T>(fn); VH_REQUIRE(!memcmp(&z,&v[0],sizeof(T)),"value"); }
	unlink(fn.c_str());
	// streams and callbacks
	std::stringstream ss; std::string buf; std::function<void(const char*,unsigned long long)> out=[&](const char*p,unsigned long long k){ if(k) buf.append(p,k); };
	write_value(ss,x); write_vector(ss,v); write_value(out,x); write_vector(out,v);
	VH_REQUIRE(ss.str()==buf,"stream and callback writers differ"); VH_REQUIRE(buf==std::string((char*)&x,sizeof(T))+want,"written bytes");
	size_t pos=0; std::function<void(char*,unsigned long long)> in=[&](char*p,unsigned long long k){ if(k>buf.size()-pos) throw std::runtime_error("end"); if(k) memcpy(p,buf.data()+pos,k); pos+=k; };
	T a=read_value<T>(ss), b=read_value<T>(in); VH_REQUIRE(!memcmp(&a,&x,sizeof(T))&&!memcmp(&b,&x,sizeof(T)),"read_value"); VH_REQUIRE(bits_equal(read_vector<T>(ss,n),v)&&bits_equal(read_vector<T>(in,n),v),"read_vector"); VH_EQ(pos,buf.size(),"bytes consumed");
	VH_REQUIRE(throws([&]{ read_value<T>(ss); }),"read_value past the end did not throw"); { std::istringstream s2(want); VH_REQUIRE(throws([&]{ read_vector<T>(s2,n+1); }),"read_vector past the end did not throw"); }
	{ std::ofstream bad(c.scratch+"/no/such/file"); VH_REQUIRE(throws([&]{ write_value(bad,x); }),"write_value to a failed stream did not throw"); VH_REQUIRE(throws([&]{ write_vector(bad,std::vector<T>{x}); }),"write_vector to a failed stream did not throw"); }
	// whole file helpers
	std::string f2=c.scratch+"/w"; open_file_for_saving(f2,[&](std::ostream&o){ write_vector(o,v); }); bool called=false;
	open_file_for_loading(f2,[&](std::istream&i,unsigned long long size){ called=true; VH_EQ((unsigned long long)want.size(),size,"reported file size"); VH_REQUIRE(bits_equal(read_vector<T>(i,n),v),"loaded through open_file_for_loading"); }); VH_REQUIRE(called,"callback not called");
	VH_REQUIRE(throws([&]{ open_file_for_loading(c.scratch+"/none",[&](std::istream&,unsigned long long){}); }),"open_file_for_loading of a missing file"); VH_REQUIRE(throws([&]{ open_file_for_saving(c.scratch+"/no/such",[&](std::ostream&){}); }),"open_file_for_saving to a missing directory");
	if(n&&access("/dev/full",W_OK)==0) VH_REQUIRE(throws([&]{ open_file_for_saving("/dev/full",[&](std::ostream&o){ write_vector(o,v); }); }),"open_file_for_saving to a full device did not throw");
	unlink(f2.c_str());
	c.count(std::string("vectors of ")+name); if(n==0) c.count("empty vectors"); if(n>1) c.nontrivial(hcombine(hstr(name),hstr(want)));
}

static void strings(Case&c){
	Rng&r=c.rng; std::string fn=c.scratch+"/s"; size_t n=r.chance(1,8)?r.below(3000):r.below(12); std::vector<std::string> v(n); for(auto&x:v){ x.resize(r.chance(1,4)?0:r.below(r.chance(1,50)?5000:20)); for(auto&ch:x) ch=(char)(1+r.below(255)); }
	c.desc=fmt("vector<string> of size %zu",n); std::string want; for(auto&x:v){ want+=x; want+='\0'; }
	save_vector(fn,v); VH_REQUIRE(slurp(fn)==want,"file content of a string vector"); VH_REQUIRE(load_vector<std::string>(fn)==v,"loaded string vector differs");
	faults(c,fn,want,[&](const std::string&f){ save_vector(f,v); },[&](const std::string&f){ return load_vector<std::string>(f)==v; },0);
	std::string one="some value"; save_value(fn,one); VH_REQUIRE(load_value<std::string>(fn)==one,"string value"); save_vector(fn,v); if(n!=1){ VH_REQUIRE(throws([&]{ load_value<std::string>(fn); }),"%zu strings accepted as one value",n); }
	unlink(fn.c_str()); c.count("string vectors"); if(n>1) c.nontrivial(hstr(want));
}

static void bits(Case&c){
	Rng&r=c.rng; std::string fn=c.scratch+"/b"; size_t n=pick_size(r); unsigned dens=r.pick({1u,2u,20u}); std::vector<bool> m(n); BitVector v(n); for(size_t i=0;i<n;++i){ m[i]=r.chance(1,dens); v.set(i,m[i]); }
	c.desc=fmt("bit vector of size %zu",n);
	auto eq=[&](const BitVector&b){ if(b.size()!=n) return false; for(size_t i=0;i<n;++i) if(b.is_set(i)!=m[i]) return false; return true; };
	if(r.chance(1,4)) v=~v, m.flip();
	save_bit_vector(fn,v); std::string content=slurp(fn); BitVector l=load_bit_vector(fn); VH_REQUIRE(eq(l),"loaded bit vector differs"); VH_REQUIRE(l==v&&!(l!=v),"loaded bit vector compares unequal"); VH_EQ(l.population_count(),v.population_count(),"population of the loaded bit vector");
	uint64_t size=n; std::string want((char*)&size,8); std::string body((n+511)/512*64,'\0'); for(size_t i=0;i<n;++i) if(m[i]) body[i/8]|=(char)(1<<(i%8)); 
	{ std::string got=content; VH_EQ(got.size(),want.size()+body.size(),"size of a bit vector file"); VH_REQUIRE(got.substr(0,8)==want,"size header"); for(size_t i=0;i<n;++i) VH_REQUIRE(((got[8+i/8]>>(i%8))&1)==(int)m[i],"bit %zu in the file",i); }
	spit(fn,want+body); VH_REQUIRE(eq(load_bit_vector(fn)),"bit vector written by the reference encoder");
	faults(c,fn,content,[&](const std::string&f){ save_bit_vector(f,v); },[&](const std::string&f){ return eq(load_bit_vector(f)); },0);
	size_t cut=r.below(content.size()); spit(fn,content.substr(0,cut)); VH_REQUIRE(throws([&]{ load_bit_vector(fn); }),"bit vector file truncated to %zu of %zu bytes was accepted",cut,content.size());
	spit(fn,content+std::string(1+r.below(200),'\0')); VH_REQUIRE(throws([&]{ load_bit_vector(fn); }),"bit vector file with trailing bytes was accepted");
	{ uint64_t s2= r.chance(1,3)?~0ull-r.below(600): r.chance(1,2)? n+512+r.below(5000) : (n>512?n-512:n+512); std::string d=content; memcpy(&d[0],&s2,8); spit(fn,d); VH_REQUIRE(throws([&]{ load_bit_vector(fn); }),"bit vector file of %zu bytes with a header of %llu bits was accepted",d.size(),(unsigned long long)s2); }
	c.count("damaged bit vector files",3);
	std::string buf; write_bit_vector([&](const char*p,unsigned long long k){ if(k) buf.append(p,k); },v); size_t pos=0; BitVector q=read_bit_vector([&](char*p,unsigned long long k){ VH_REQUIRE(pos+k<=buf.size(),"read_bit_vector reads too much"); if(k) memcpy(p,buf.data()+pos,k); pos+=k; },n); VH_REQUIRE(eq(q)&&q==v,"bit vector through callbacks"); VH_EQ(pos,buf.size(),"bytes consumed");
	unlink(fn.c_str()); c.count("bit vectors"); if(n>1) c.nontrivial(hstr(content));
}

// more than 2^32 bytes: loaded from a sparse file with marks, saved into a pipe whose reader looks for the same marks
static void huge(Case&c){
	Rng&r=c.rng; const uint64_t n=(1ull<<29)+3+r.below(1000), bytes=n*8; std::string fn=c.scratch+"/h"; c.desc=fmt("vector<uint64> of size %llu",(unsigned long long)n);
	std::map<uint64_t,uint64_t> mark; mark[0]=r.next()|1; mark[n-1]=r.next()|1; mark[1ull<<29]=r.next()|1; mark[(1ull<<29)-1]=r.next()|1; mark[1ull<<28]=r.next()|1; for(int i=0;i<20;++i) mark[r.below(n)]=r.next()|1;
	{ FILE*f=fopen(fn.c_str(),"wb"); VH_REQUIRE(f,"cannot write"); for(auto&x:mark){ fseeko(f,(off_t)(x.first*8),SEEK_SET); if(fwrite(&x.second,8,1,f)!=1) abort(); } fclose(f); }
	auto v=load_vector<uint64_t>(fn); VH_EQ((uint64_t)v.size(),n,"elements of a file beyond 4 GB"); for(auto&x:mark) VH_EQ(v[x.first],x.second,"element of a file beyond 4 GB");
	unlink(fn.c_str()); uint64_t zero=0; for(auto x:v) zero+=x!=0; VH_EQ(zero,(uint64_t)mark.size(),"non-zero elements of a file beyond 4 GB");
	VH_REQUIRE(mkfifo(fn.c_str(),0600)==0,"mkfifo"); uint64_t got=0; bool ok=true; size_t seen=0;
	std::thread rd([&]{ FILE*f=fopen(fn.c_str(),"rb"); if(!f){ ok=false; return; } setvbuf(f,0,_IOFBF,1<<20); std::vector<uint64_t> b(1<<16); size_t k; uint64_t at=0; while((k=fread(b.data(),1,b.size()*8,f))>0){ got+=k; for(size_t i=0;i<k/8;++i,++at) if(b[i]){ auto it=mark.find(at); if(it==mark.end()||it->second!=b[i]) ok=false; else ++seen; } } fclose(f); });
	bool threw=false; try{ save_vector(fn,v); }catch(std::exception&){ threw=true; } rd.join(); unlink(fn.c_str());
	VH_REQUIRE(!threw&&got==bytes&&ok&&seen==mark.size(),"saving %llu bytes wrote %llu bytes, %zu of %zu marks%s",(unsigned long long)bytes,(unsigned long long)got,seen,mark.size(),threw?" and threw":"");
	std::vector<uint64_t>().swap(v);
	uint64_t nb=(1ull<<32)+r.below(2000); BitVector b(nb); std::set<uint64_t> on; on.insert(nb-1); on.insert(0); on.insert(1ull<<31); on.insert((1ull<<32)-1); for(int i=0;i<20;++i) on.insert(r.below(nb)); for(auto x:on) b.set(x);
	save_bit_vector(fn,b); BitVector l=load_bit_vector(fn); unlink(fn.c_str()); VH_EQ((uint64_t)l.size(),nb,"size of a large bit vector"); for(auto x:on) VH_REQUIRE(l.is_set(x),"bit %llu of a large bit vector",(unsigned long long)x); VH_EQ((uint64_t)l.population_count(),(uint64_t)on.size(),"population of a large bit vector");
	c.count("files beyond 4 GB"); c.nontrivial(n);
}

void vh_case(Case&c){
	static bool init=false; if(!init){ signal(SIGXFSZ,SIG_IGN); signal(SIGPIPE,SIG_IGN); init=true; }
	if(c.large(9999)){ huge(c); return; }
	switch(c.rng.below(12)){
		case 0: plain<unsigned>(c,"unsigned"); break; case 1: plain<float>(c,"float"); break; case 2: plain<double>(c,"double"); break; case 3: plain<char>(c,"char"); break;
		case 4: plain<uint64_t>(c,"uint64"); break; case 5: plain<int16_t>(c,"int16"); break; case 6: plain<Pod>(c,"pod"); break; case 7: plain<int>(c,"int"); break;
		case 8: case 9: strings(c); break; default: bits(c);
	}
	c.sample(c.desc);
}
