// C17: BitVector mirrored by std::vector<bool>
#include "gen.h"
#include <routingkit/bit_vector.h>
#include <cstdint>
#include <set>
#include <new>
using namespace RoutingKit;
typedef std::vector<bool> M;
static bool g_large=false;
static uint64_t some_size(vh::Rng&r){
	if(g_large && r.chance(2,3)) switch(r.below(3)){ case 0: return 65536+r.below(5)-2; case 1: return 512*(128+r.below(300))+r.below(3)-1; default: return 60000+r.below(200000); }
	switch(r.below(6)){
	case 0: return r.below(4);
	case 1: return r.below(130);
	case 2: { int64_t b=64*r.below(30); return std::max<int64_t>(0,b+(int64_t)r.below(5)-2); }
	case 3: { int64_t b=512*r.below(6); return std::max<int64_t>(0,b+(int64_t)r.below(5)-2); }
	case 4: return 512*r.below(7);
	default: return r.below(3000);
	}
}
static void check(const BitVector&b, const M&m, const char*what){
	VH_EQ(b.size(), (uint64_t)m.size(), "%s: size", what); VH_EQ(b.empty(), m.empty(), "%s: empty", what);
	uint64_t pc=0;
	for(uint64_t i=0;i<m.size();++i){ if(b.is_set(i)!=m[i]) VH_REQUIRE(false, "%s: bit %llu of %zu is %d", what, (unsigned long long)i, m.size(), (int)b.is_set(i)); pc+=m[i]; }
	VH_EQ(b.population_count(), pc, "%s: population_count", what); VH_EQ(b.count_true(), pc, "%s: count_true", what); VH_EQ(b.count_false(), m.size()-pc, "%s: count_false", what);
	VH_EQ(b.are_all_set(), pc==m.size(), "%s: are_all_set with %llu of %zu bits set", what, (unsigned long long)pc, m.size());
	VH_EQ(b.is_any_set(), pc!=0, "%s: is_any_set", what);
	VH_EQ(b.uint512_count(), (uint64_t)(m.size()+511)/512, "%s: block count", what);
	for(uint64_t i=m.size(); i<b.uint512_count()*512; ++i) VH_REQUIRE(!((b.data()[i/64]>>(i%64))&1), "%s: padding bit %llu is set", what, (unsigned long long)i);
}
static M random_bits(vh::Rng&r, uint64_t n){ M m(n); unsigned d=r.below(5); for(uint64_t i=0;i<n;++i) m[i]= d==0?false:d==1?true:r.chance(1,d==2?2:d==3?20:200); return m; }
static BitVector make(vh::Rng&r, const M&m){
	if(r.chance(1,2)) return make_bit_vector(m.size(), [&](uint64_t x){ return (bool)m[x]; });
	BitVector b(m.size(), false); for(uint64_t i=0;i<m.size();++i) if(m[i]) b.set(i); return b;
}
// more than 2^32 bits; the oracle is a sparse set of exceptions from a constant
static void huge(vh::Case&c){
	auto&r=c.rng; const uint64_t B=1ull<<32; uint64_t n=B+r.below(3000)+(r.chance(1,2)?0:512*r.below(2)); bool base=r.chance(1,2);
	c.desc=vh::fmt("huge vector of %llu bits, initially %d",(unsigned long long)n,(int)base);
	BitVector b; if(r.chance(1,2)) b=BitVector(n,base); else { b=BitVector(B-5,base); b.resize(n,base); }
	std::set<uint64_t> x; auto pos=[&]{ switch(r.below(4)){ case 0: return n-1-r.below(600); case 1: return B-3+r.below(6); case 2: return r.below(1000); default: return r.below(n); } };
	auto look=[&](const char*what){
		VH_EQ(b.size(),n,"%s: size",what); uint64_t want=base?n-x.size():x.size(); VH_EQ(b.population_count(),want,"%s: population count",what); VH_EQ(b.count_false(),n-want,"%s: zero count",what); VH_EQ(b.are_all_set(),want==n,"%s: all",what); VH_EQ(b.is_any_set(),want!=0,"%s: any",what);
		for(unsigned k=0;k<3000;++k){ uint64_t p=pos(); VH_EQ(b.is_set(p),base!=(bool)x.count(p),"%s: bit %llu",what,(unsigned long long)p); }
		for(uint64_t p:x) VH_EQ(b.is_set(p),!base,"%s: changed bit %llu",what,(unsigned long long)p);
	};
	look("new");
	for(unsigned k=0;k<400;++k){ uint64_t p=pos(); bool v=r.chance(2,3); if(v) x.insert(p); else x.erase(p); b.set(p,v!=base); }
	look("bits changed"); b.inplace_not(); base=!base; look("complement");
	{ BitVector o=b; VH_REQUIRE(o==b,"copy differs"); uint64_t p=n-1-r.below(4000); o.toggle(p); VH_REQUIRE(!(o==b),"difference in bit %llu not seen",(unsigned long long)p); o|=b; o&=b; VH_REQUIRE(o==b,"absorption fails"); o^=b; VH_EQ(o.population_count(),0ull,"x^x"); }
	uint64_t s=n+1+r.below(2000); b.resize(s,base); n=s; look("grown"); s=n-1-r.below(1000); b.resize(s,base); n=s; x.erase(x.lower_bound(n),x.end()); look("shrunk");
	c.count("vectors beyond 2^32 bits"); c.nontrivial(n);
}
// requests that no machine can satisfy must throw and leave the object alone
static void impossible(vh::Case&c){
	auto&r=c.rng; uint64_t s=(1ull<<(52+r.below(8)))+r.below(1000); M m=random_bits(r,some_size(r)); BitVector b=make(r,m); unsigned k=r.below(6); c.desc=vh::fmt("allocation failure %u with %llu bits",k,(unsigned long long)s);
	bool thrown=false;
	try{ switch(k){ case 0: { BitVector t(s); (void)t; break; } case 1: { BitVector t(s,BitVector::uninitialized); break; } case 2: { BitVector t(s,true); break; } case 3: b.resize(s,true); break; case 4: b.resize(s,BitVector::uninitialized); break; default: b.make_large_enough_for(s,false); } }catch(std::bad_alloc&){ thrown=true; }
	VH_REQUIRE(thrown,"no bad_alloc for %llu bits",(unsigned long long)s); check(b,m,"after failed allocation"); c.count("failed allocations");
}
void vh_case(vh::Case&c){
	auto&r=c.rng; const unsigned K=3;
	if(c.large(14999)){ huge(c); return; }
	if(c.is_rel() && c.idx%100==1){ impossible(c); return; }
	g_large=c.large(149);
	BitVector b[K]; M m[K];
	std::string trace;
	auto log=[&](std::string s){ if(trace.size()<2500) trace+=s+" "; c.desc=trace; };
	for(unsigned i=0;i<K;++i) if(r.chance(3,4)){ uint64_t n=some_size(r); bool v=r.chance(1,2); log(vh::fmt("ctor%u(%llu,%d)",i,(unsigned long long)n,(int)v)); b[i]=BitVector(n,v); m[i].assign(n,v); check(b[i],m[i],"constructor"); }
	unsigned ops=r.in(5,40); uint64_t h=0;
	for(unsigned k=0;k<ops;++k){
		unsigned i=r.below(K), j=r.below(K), op=r.below(22); uint64_t n=m[i].size();
		h=vh::hcombine(h, op*1000003+n);
		switch(op){
		case 0: case 1: { unsigned q=r.in(1,20); if(n) for(unsigned z=0;z<q;++z){ uint64_t x=r.chance(1,3)?(r.chance(1,2)?n-1:0):r.below(n); switch(r.below(6)){ case 0: b[i].set(x); m[i][x]=1; break; case 1: b[i].reset(x); m[i][x]=0; break; case 2: b[i].toggle(x); m[i][x]=!m[i][x]; break; case 3: b[i].set(x,true); m[i][x]=1; break; case 4: b[i].set(x,false); m[i][x]=0; break; default: { bool v=r.chance(1,2); b[i].set_if(x,v); if(v) m[i][x]=1; } } } log(vh::fmt("bits%u",i)); break; }
		case 2: log(vh::fmt("set_all%u",i)); b[i].set_all(); m[i].assign(n,true); break;
		case 3: log(vh::fmt("reset_all%u",i)); b[i].reset_all(); m[i].assign(n,false); break;
		case 4: { bool v=r.chance(1,2); log(vh::fmt("set_all%u(%d)",i,(int)v)); b[i].set_all(v); m[i].assign(n,v); break; }
		case 5: log(vh::fmt("not%u",i)); b[i].inplace_not(); m[i].flip(); break;
		case 6: log(vh::fmt("%u=~%u",j,i)); { M t=m[i]; t.flip(); b[j]=~b[i]; m[j]=t; } break;
		case 7: case 8: case 9: { uint64_t s=r.chance(1,4)?n:r.chance(1,3)?n+r.below(600):some_size(r); bool v=r.chance(2,3); log(vh::fmt("resize%u(%llu->%llu,%d)",i,(unsigned long long)n,(unsigned long long)s,(int)v)); b[i].resize(s,v); m[i].resize(s,v); c.count(s<n?"shrinking resizes":s==n?"same size resizes":"growing resizes"); break; }
		case 10: { uint64_t s=some_size(r); log(vh::fmt("resize%u(%llu->%llu,uninit)",i,(unsigned long long)n,(unsigned long long)s)); b[i].resize(s,BitVector::uninitialized); VH_EQ(b[i].size(),s,"size after resize"); m[i].resize(s); for(uint64_t x=n;x<s;++x) m[i][x]=b[i].is_set(x); break; }
		case 11: { uint64_t x=some_size(r); bool v=r.chance(1,2); log(vh::fmt("large%u(%llu,%d)",i,(unsigned long long)x,(int)v)); b[i].make_large_enough_for(x,v); VH_REQUIRE(b[i].size()>x, "make_large_enough_for(%llu) gave %llu", (unsigned long long)x, (unsigned long long)b[i].size()); if(n>x) VH_EQ(b[i].size(),n,"size changed needlessly"); VH_REQUIRE(b[i].size()<=std::max<uint64_t>(n,2*x+2), "grown to %llu for %llu", (unsigned long long)b[i].size(), (unsigned long long)x); m[i].resize(b[i].size(), v); c.count("grow on demand"); break; }
		case 12: log(vh::fmt("copy%u=%u",i,j)); if(r.chance(1,2)) b[i]=b[j]; else { BitVector t(b[j]); b[i]=t; } m[i]=m[j]; c.count("copies"); break;
		case 13: if(i!=j){ log(vh::fmt("move%u=%u",i,j)); if(r.chance(1,2)) b[i]=std::move(b[j]); else { BitVector t(std::move(b[j])); b[i]=std::move(t); } m[i]=m[j]; b[j]=BitVector(); m[j].clear(); c.count("moves"); } break;
		case 14: log(vh::fmt("swap%u,%u",i,j)); if(i!=j){ b[i].swap(b[j]); std::swap(m[i],m[j]); } break;
		case 15: log(vh::fmt("new%u",i)); { M t=random_bits(r,some_size(r)); b[i]=make(r,t); m[i]=t; } break;
		case 16: case 17: case 18: { // binary operators
			M t=random_bits(r,n); BitVector o=make(r,t); unsigned f=r.below(3), style=r.below(5); log(vh::fmt("op%u(%u,style %u)",i,f,style));
			M res(n); for(uint64_t x=0;x<n;++x) res[x]= f==0?(m[i][x]|t[x]):f==1?(m[i][x]&t[x]):(m[i][x]!=t[x]);
			BitVector out, keep=o;
			if(style==0){ if(f==0) b[i]|=o; else if(f==1) b[i]&=o; else b[i]^=o; out=b[i]; }
			else if(style==1) out= f==0?(b[i]|o):f==1?(b[i]&o):(b[i]^o);
			else if(style==2) out= f==0?(BitVector(b[i])|o):f==1?(BitVector(b[i])&o):(BitVector(b[i])^o);
			else if(style==3) out= f==0?(b[i]|BitVector(o)):f==1?(b[i]&BitVector(o)):(b[i]^BitVector(o));
			else out= f==0?(BitVector(b[i])|BitVector(o)):f==1?(BitVector(b[i])&BitVector(o)):(BitVector(b[i])^BitVector(o));
			check(out,res,"binary operator"); check(o,t,"right operand"); if(style==0) m[i]=res; else check(b[i],m[i],"left operand"); VH_REQUIRE(keep==o,"operand changed"); c.count("binary operators"); break; }
		case 19: { // self operators
			log(vh::fmt("self%u",i)); BitVector t=b[i]; t|=t; check(t,m[i],"x|=x"); t&=t; check(t,m[i],"x&=x"); t^=t; check(t,M(n,false),"x^=x"); b[i]=b[i]; break; }
		case 20: { log(vh::fmt("uninit%u",i)); uint64_t s=some_size(r); BitVector t(s,BitVector::uninitialized); VH_EQ(t.size(),s,"size"); t.set_all(r.chance(1,2)); b[i]=t; M q(s); for(uint64_t x=0;x<s;++x) q[x]=t.is_set(x); m[i]=q; break; }
		case 21: { log(vh::fmt("restore%u",i)); // raw storage and padding reset
			BitVector t=b[i]; if(t.uint512_count()){ for(uint64_t x=n;x<t.uint512_count()*512;++x) if(r.chance(1,2)) t.data()[x/64] |= 1ull<<(x%64); } t.reset_all_padding_bits(); b[i]=t; break; }
		}
		check(b[i],m[i],"after operation"); if(j!=i) check(b[j],m[j],"other operand");
		if(r.chance(1,4)) for(unsigned x=0;x<K;++x) for(unsigned y=0;y<K;++y){
			bool eq=m[x]==m[y]; VH_EQ(b[x]==b[y],eq,"operator==(%u,%u)",x,y); VH_EQ(b[x]!=b[y],!eq,"operator!=(%u,%u)",x,y);
			bool lt=b[x]<b[y], gt=b[y]<b[x]; VH_EQ((int)lt+(int)gt+(int)eq,1,"trichotomy of %u,%u",x,y);
			VH_EQ(b[x]>b[y],gt,"operator>"); VH_EQ(b[x]<=b[y],!gt,"operator<="); VH_EQ(b[x]>=b[y],!lt,"operator>=");
			for(unsigned z=0;z<K;++z) if(lt && b[y]<b[z]) VH_REQUIRE(b[x]<b[z],"order is not transitive"); c.count("comparisons");
		}
	}
	if(!m[0].empty()){ BitVector t=b[0]; uint64_t x=r.below(m[0].size()); t.toggle(x); VH_REQUIRE(!(t==b[0]), "difference in bit %llu not seen", (unsigned long long)x); t.toggle(x); VH_REQUIRE(t==b[0],"equal vectors differ"); }
	c.nontrivial(h); if(g_large) c.count("large vectors");
	if(c.idx<2) c.sample(c.desc);
}
