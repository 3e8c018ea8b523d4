// C18: id mappers as exact rank/select inverses
#include "gen.h"
#include <routingkit/id_mapper.h>
#include <routingkit/bit_vector.h>
using namespace RoutingKit;
#include <set>
// OSM identifiers exceed 2^32
static void huge(vh::Case&c){
	auto&r=c.rng; const uint64_t B=1ull<<32; uint64_t n=B+r.below(1ull<<28)+r.below(513); BitVector b(n,false); std::vector<uint64_t> g;
	auto run=[&](uint64_t at, uint64_t len){ for(uint64_t i=at;i<n&&i<at+len;++i) b.set(i); };
	run(0,r.below(3)); run(B-200000,r.in(100000,400000)); run(n-r.below(3),5); for(unsigned k=0;k<200000;++k) b.set(r.below(n)); for(unsigned k=0;k<200;++k) run(r.below(n),r.in(1,3000)); for(unsigned k=0;k<50000;++k) b.set(B+r.below(n-B));
	for(uint64_t w=0;w<(n+63)/64;++w) for(uint64_t x=b.data()[w];x;x&=x-1) g.push_back(w*64+__builtin_ctzll(x));
	c.desc=vh::fmt("huge id space of %llu with %zu ids",(unsigned long long)n,g.size());
	LocalIDMapper lm(b); IDMapper im(b); VH_EQ(im.global_id_count(),n,"global count"); VH_EQ(lm.local_id_count(),(uint64_t)g.size(),"local count"); VH_EQ(im.local_id_count(),(uint64_t)g.size(),"local count");
	for(uint64_t k=0;k<g.size();++k){ VH_EQ(im.to_local(g[k]),k,"to_local(%llu)",(unsigned long long)g[k]); VH_EQ(lm.to_local(g[k],7777),k,"to_local(%llu,invalid)",(unsigned long long)g[k]); VH_EQ(im.to_global(k),g[k],"to_global(%llu)",(unsigned long long)k);
		uint64_t y=g[k]+1; bool s = k+1<g.size()&&g[k+1]==y; if(y<n){ VH_EQ(im.is_global_id_mapped(y),s,"is_global_id_mapped(%llu)",(unsigned long long)y); VH_EQ(im.to_local(y,~0ull),s?k+1:~0ull,"to_local(%llu,invalid)",(unsigned long long)y); } }
	c.count("ids in a space beyond 2^32",g.size()); c.nontrivial(vh::hvec(g,n));
}
void vh_case(vh::Case&c){
	auto&r=c.rng;
	if(c.large(5999)){ huge(c); return; }
	uint64_t n; switch(r.below(7)){ case 0: n=r.below(4); break; case 1: n=r.below(130); break; case 2: n=std::max<int64_t>(0,(int64_t)(512*r.below(9))+(int64_t)r.below(5)-2); break; case 3: n=64*r.below(40)+r.below(3); break; case 4: n=r.below(20000); break; case 5: n=r.below(4000); break; default: n=c.is_rel()?r.below(300000):r.below(40000); }
	BitVector b(n,false); unsigned pat=r.below(9); std::vector<uint64_t>g;
	c.desc=vh::fmt("n=%llu pattern %u",(unsigned long long)n,pat);
	switch(pat){
	case 0: break;
	case 1: b.set_all(); break;
	case 2: for(uint64_t i=0;i<n;++i) if(r.chance(1,2)) b.set(i); break;
	case 3: { unsigned d=r.in(2,3000); for(uint64_t i=r.below(d);i<n;i+=d) b.set(i); break; }
	case 4: for(unsigned k=0;n && k<r.in(1,20);++k) b.set(r.below(n)); break;
	case 5: { uint64_t i=0; while(i<n){ uint64_t run=r.in(1,1500); bool v=r.chance(1,2); for(uint64_t k=0;k<run&&i<n;++k,++i) b.set(i,v); } break; }
	case 6: b.set_all(); for(unsigned k=0;n && k<20;++k) b.reset(r.below(n)); break;
	case 7: if(n){ b.set(n-1); if(r.chance(1,2)) b.set(0); } break;
	default: { // exactly k*256 or k*512 +-1 set bits, then a long gap
		uint64_t want=std::min<uint64_t>(n,256*r.below(6)+r.below(3)); uint64_t start=n>want?r.below(n-want+1):0; for(uint64_t i=0;i<want;++i) b.set(start+i); if(n) b.set(n-1); }
	}
	for(uint64_t i=0;i<n;++i) if(b.is_set(i)) g.push_back(i);
	const bool raw=r.chance(1,4);
	LocalIDMapper lm = raw?LocalIDMapper(n,b.data()):LocalIDMapper(b); IDMapper im = raw?IDMapper(n,b.data()):IDMapper(b);
	if(r.chance(1,4)){ IDMapper t; VH_REQUIRE(t.global_id_count()==0&&t.local_id_count()==0,"default mapper not empty"); t=im; im=IDMapper(t); LocalIDMapper q; q=lm; lm=std::move(q); c.count("copied mappers"); }
	VH_EQ(lm.global_id_count(), n, "LocalIDMapper global count"); VH_EQ(lm.local_id_count(), (uint64_t)g.size(), "LocalIDMapper local count");
	VH_EQ(im.global_id_count(), n, "IDMapper global count"); VH_EQ(im.local_id_count(), (uint64_t)g.size(), "IDMapper local count");
	uint64_t inv=r.pick<uint64_t>({~0ull,(uint64_t)invalid_id,0ull,12345ull});
	uint64_t k=0; bool exhaustive = n<=6000 || r.chance(1,3);
	for(uint64_t i=0;i<n;++i){
		bool s=b.is_set(i);
		if(exhaustive || i%97==0 || (s&&i%13==0)){
			VH_EQ(im.is_global_id_mapped(i), s, "is_global_id_mapped(%llu)", (unsigned long long)i); VH_EQ(lm.is_global_id_mapped(i), s, "is_global_id_mapped(%llu)", (unsigned long long)i);
			VH_EQ(im.to_local(i,inv), s?k:inv, "to_local(%llu,invalid)", (unsigned long long)i); VH_EQ(lm.to_local(i,inv), s?k:inv, "to_local(%llu,invalid)", (unsigned long long)i);
			if(s){ VH_EQ(im.to_local(i), k, "to_local(%llu)", (unsigned long long)i); VH_EQ(lm.to_local(i), k, "to_local(%llu)", (unsigned long long)i); }
		}
		if(s){ if(exhaustive || k%11==0 || k%256<2 || k%256==255) VH_EQ(im.to_global(k), i, "to_global(%llu)", (unsigned long long)k); ++k; }
	}
	if(!g.empty()) VH_EQ(im.to_global(g.size()-1), g.back(), "to_global of the last id");
	VH_EQ(im.to_local(n,inv), inv, "to_local at the end"); VH_EQ(im.to_local(n+r.below(1000),inv), inv, "to_local beyond the end"); VH_EQ(lm.to_local(~0ull,inv), inv, "to_local of the maximum");
	c.count("mapped ids", g.size()); c.count("unmapped ids", n-g.size()); if(g.size()>256) c.count("mappers with several select samples");
	if(!g.empty()) c.nontrivial(vh::hvec(g,n));
	if(c.idx<2) c.sample(c.desc+" ids "+vh::show(g,20));
}
