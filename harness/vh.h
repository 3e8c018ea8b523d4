// Verification harness framework: deterministic cases, counters, violation reporting.
// Every harness defines   void vh_case(vh::Case&c);
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <exception>
#include <stdexcept>
#include <algorithm>
#include <atomic>
#include <mutex>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <pthread.h>

#ifndef VH_CONFIG
#define VH_CONFIG "rel"
#endif

namespace vh{

inline uint64_t mix(uint64_t x){
	x += 0x9e3779b97f4a7c15ull;
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
	x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
	return x ^ (x >> 31);
}
inline uint64_t hcombine(uint64_t h, uint64_t v){ return mix(h ^ mix(v)); }
template<class V> uint64_t hvec(const V&v, uint64_t h=1){
	h = hcombine(h, v.size());
	for(auto x:v) h = hcombine(h, (uint64_t)x);
	return h;
}
inline uint64_t hstr(const std::string&s, uint64_t h=7){ for(unsigned char c:s) h = h*1099511628211ull ^ c; return mix(h); }

struct Rng{
	uint64_t s;
	explicit Rng(uint64_t seed=0):s(mix(seed)){}
	uint64_t next(){ s += 0x9e3779b97f4a7c15ull; return mix(s); }
	uint64_t operator()(){ return next(); }
	typedef uint64_t result_type;
	static constexpr uint64_t min(){return 0;}
	static constexpr uint64_t max(){return ~0ull;}
	uint64_t below(uint64_t n){ return n == 0 ? 0 : next() % n; }           // [0,n)
	uint64_t in(uint64_t a, uint64_t b){ return a + below(b-a+1); }          // [a,b]
	bool chance(unsigned num, unsigned den){ return below(den) < num; }
	double real(){ return (next()>>11) * (1.0/9007199254740992.0); }
	double real(double a, double b){ return a + (b-a)*real(); }
	template<class T> const T& pick(const std::vector<T>&v){ return v[below(v.size())]; }
	template<class T> T pick(std::initializer_list<T>v){ return *(v.begin()+below(v.size())); }
	template<class T> void shuffle(std::vector<T>&v){ for(size_t i=v.size(); i>1; --i) std::swap(v[i-1], v[below(i)]); }
};

struct Violation : std::exception{
	std::string msg;
	explicit Violation(std::string m):msg(std::move(m)){}
	const char*what()const noexcept override{ return msg.c_str(); }
};

inline std::string fmt(const char*f, ...) __attribute__((format(printf,1,2)));
inline std::string fmt(const char*f, ...){
	va_list a; va_start(a, f);
	char buf[4096]; vsnprintf(buf, sizeof buf, f, a); va_end(a);
	return buf;
}
template<class V> std::string show(const V&v, size_t limit=60){
	std::string r="["; size_t i=0;
	for(auto x:v){ if(i) r+=","; if(i++==limit){ r+="..."; break; } r+=std::to_string(x); }
	return r+"]";
}

struct Case{
	uint64_t idx=0, seed=0;
	bool thorough=false;
	Rng rng;
	std::string desc;                      // what is being executed right now (goes into the replay file)
	std::map<std::string,uint64_t> counters;
	std::set<uint64_t> distinct;
	std::vector<std::string> samples;
	std::string scratch;                   // per process scratch directory
	bool is_rel()const{ return std::string(VH_CONFIG)=="rel"; }
	bool is_asan()const{ return std::string(VH_CONFIG)=="asan"; }
	bool is_tsan()const{ return std::string(VH_CONFIG)=="tsan"; }
	bool large(unsigned k)const{ return is_rel() && idx%k==k-1; }   // every k-th case of the plain configuration uses a large input (k odd: spread over the shards)
	void count(const std::string&n, uint64_t k=1){ counters[n]+=k; }
	void maxi(const std::string&n, uint64_t k){ auto&x=counters["max:"+n]; if(k>x) x=k; }
	void nontrivial(uint64_t h){ distinct.insert(h); }
	void sample(const std::string&s){ if(samples.size()<3) samples.push_back(s); }
	[[noreturn]] void fail(const std::string&m){ throw Violation(m); }
};

#define VH_REQUIRE(cond, ...) do{ if(!(cond)) throw ::vh::Violation(std::string(#cond " is false: ")+::vh::fmt(__VA_ARGS__)); }while(0)
#define VH_EQ(a,b,...) do{ auto va__=(a); auto vb__=(b); if(!(va__==vb__)) throw ::vh::Violation(std::string(#a " == " #b " is false (")+std::to_string(va__)+" vs "+std::to_string(vb__)+"): "+::vh::fmt(__VA_ARGS__)); }while(0)

inline std::string jesc(const std::string&s){
	std::string r;
	for(unsigned char ch:s){
		if(ch=='"'||ch=='\\'){ r+='\\'; r+=ch; }
		else if(ch<0x20||ch>=0x7f) r+=fmt("\\u%04x", ch);
		else r+=ch;
	}
	return r;
}

struct Progress{ volatile uint64_t current; volatile uint64_t beat; };
inline Progress*&progress(){ static Progress*p=nullptr; return p; }
inline void beat(){ if(progress()) progress()->beat = progress()->beat+1; }

// runs f in a thread with the given stack size; exceptions are passed on
inline void with_stack(size_t bytes, const std::function<void()>&f){
	struct Arg{ const std::function<void()>*f; std::exception_ptr e; } arg{&f,nullptr};
	struct R{ static void*run(void*p){ Arg*a=(Arg*)p; try{ (*a->f)(); }catch(...){ a->e=std::current_exception(); } return nullptr; } };
	pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a,bytes); pthread_t t;
	if(pthread_create(&t,&a,&R::run,&arg)!=0) throw std::runtime_error("pthread_create");
	pthread_join(t,nullptr); pthread_attr_destroy(&a); if(arg.e) std::rethrow_exception(arg.e);
}

} // namespace vh

void vh_case(vh::Case&c);

#ifndef VH_NO_MAIN
int main(int argc, char**argv){
	using namespace vh;
	uint64_t deadline=~0ull, seed=1, shard=0, nshards=1, cases=1, only=~0ull, from=0;
	std::string out, scratch="/tmp"; bool thorough=false;
	for(int i=1;i+1<argc;i+=2){
		std::string k=argv[i], v=argv[i+1];
		if(k=="--seed") seed=strtoull(v.c_str(),0,10);
		else if(k=="--shard") shard=strtoull(v.c_str(),0,10);
		else if(k=="--nshards") nshards=strtoull(v.c_str(),0,10);
		else if(k=="--cases") cases=strtoull(v.c_str(),0,10);
		else if(k=="--case") only=strtoull(v.c_str(),0,10);
		else if(k=="--from") from=strtoull(v.c_str(),0,10);
		else if(k=="--deadline") deadline=strtoull(v.c_str(),0,10);
		else if(k=="--out") out=v;
		else if(k=="--scratch") scratch=v;
		else if(k=="--tier") thorough=(v=="thorough");
		else { fprintf(stderr,"unknown option %s\n",k.c_str()); return 2; }
	}
	if(out.empty()){ fprintf(stderr,"--out missing\n"); return 2; }
	int fd = open((out+".progress").c_str(), O_RDWR|O_CREAT|O_TRUNC, 0644);
	if(fd<0 || ftruncate(fd, sizeof(Progress))!=0){ perror("progress"); return 2; }
	progress() = (Progress*)mmap(0,sizeof(Progress),PROT_READ|PROT_WRITE,MAP_SHARED,fd,0);
	progress()->current = ~0ull;
	Case c; c.seed=seed; c.thorough=thorough; c.scratch=scratch;
	std::vector<std::pair<uint64_t,std::string>> violations;
	uint64_t evaluated=0;
	for(uint64_t i = only!=~0ull ? only : shard; i < (only!=~0ull ? only+1 : cases); i += nshards){
		if(i < from) continue;
		if((uint64_t)time(0) > deadline){ c.count("cases cut off by the time limit", (cases-i+nshards-1)/nshards); break; }
		c.idx=i; c.rng=Rng(hcombine(hcombine(0x5eed,seed), i)); c.desc.clear();
		progress()->current = i; beat();
		try{
			vh_case(c);
		}catch(Violation&v){
			violations.push_back({i, v.msg+" | case: "+c.desc});
		}catch(std::exception&e){
			violations.push_back({i, std::string("unexpected exception: ")+e.what()+" | case: "+c.desc});
		}catch(...){
			violations.push_back({i, "unexpected exception of unknown type | case: "+c.desc});
		}
		++evaluated;
		if(!violations.empty()) break;
	}
	FILE*f=fopen((out+".json").c_str(),"w");
	if(!f){ perror("out"); return 2; }
	fprintf(f,"{\"evaluated\":%llu,\"counters\":{",(unsigned long long)evaluated);
	bool first=true;
	for(auto&x:c.counters){ fprintf(f,"%s\"%s\":%llu", first?"":",", jesc(x.first).c_str(), (unsigned long long)x.second); first=false; }
	fprintf(f,"},\"samples\":["); first=true;
	for(auto&s:c.samples){ fprintf(f,"%s\"%s\"", first?"":",", jesc(s).c_str()); first=false; }
	fprintf(f,"],\"violations\":["); first=true;
	for(auto&v:violations){ fprintf(f,"%s{\"case\":%llu,\"msg\":\"%s\"}", first?"":",", (unsigned long long)v.first, jesc(v.second).c_str()); first=false; }
	fprintf(f,"]}\n"); fclose(f);
	FILE*d=fopen((out+".distinct").c_str(),"wb");
	if(d){ for(uint64_t h:c.distinct) fwrite(&h,8,1,d); fclose(d); }
	progress()->current = ~0ull;
	fflush(stdout);
	return violations.empty()?0:3;
}
#endif
