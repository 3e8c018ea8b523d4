// C16: priority queues and flags against abstract models
#include "gen.h"
#include <routingkit/id_queue.h>
#include <routingkit/id_set_queue.h>
#include <routingkit/timestamp_flag.h>
#include <map>
#include <set>
using namespace RoutingKit;
static unsigned some_size(vh::Rng&r){ switch(r.below(5)){ case 0: return r.below(4); case 1: return r.in(1,9); case 2: { unsigned p=1u<<r.below(9); return p+r.below(3)-(p>1?1:0); } case 3: return r.in(1,70); default: return r.in(1,400); } }
struct MQ{ MinIDQueue q; std::map<unsigned,unsigned>m; unsigned n; };
static void check_mq(MQ&x, vh::Rng&r, bool full){
	VH_EQ(x.q.size(), (unsigned)x.m.size(), "size"); VH_EQ(x.q.empty(), x.m.empty(), "empty"); VH_EQ(x.q.id_count(), x.n, "id_count");
	if(!x.m.empty()){
		auto p=x.q.peek(); unsigned mn=~0u; for(auto&e:x.m) mn=std::min(mn,e.second);
		VH_EQ(p.key,mn,"peek key"); VH_REQUIRE(x.m.count(p.id)&&x.m[p.id]==p.key, "peek id %u", p.id);
	}
	if(full) for(unsigned i=0;i<x.n;++i){ bool in=x.m.count(i); VH_EQ(x.q.contains_id(i), in, "contains %u", i); if(in) VH_EQ(x.q.get_key(i), x.m[i], "key of %u", i); }
	else if(x.n){ unsigned i=r.below(x.n); VH_EQ(x.q.contains_id(i), (bool)x.m.count(i), "contains %u", i); }
}
static void min_queue(vh::Case&c){
	auto&r=c.rng; unsigned n=some_size(r), n2=r.chance(1,2)?n:some_size(r);
	if(r.chance(1,5)){ MinIDQueue d; VH_REQUIRE(d.empty()&&d.size()==0&&d.id_count()==0,"default constructed queue"); MinIDQueue e(d); d=MinIDQueue(3); d.push({2,7}); d=e; VH_REQUIRE(d.empty()&&d.size()==0,"copy of a default constructed queue"); d=MinIDQueue(4); d.push({3,1}); VH_REQUIRE(d.size()==1&&d.pop().id==3&&d.empty(),"queue assigned to a default constructed one"); }
	MQ a{MinIDQueue(n),{},n}, b{MinIDQueue(n2),{},n2};
	unsigned ops=r.in(10,4*n+40), range=r.pick({1u,3u,20u,1000u,0xffffffffu}), bias=r.below(4); uint64_t h=n;
	auto key=[&]{ return range==0xffffffffu?(unsigned)r.next():(unsigned)r.below(range+1); };
	std::string trace=vh::fmt("MinIDQueue n=%u n2=%u: ",n,n2);
	auto log=[&](std::string s){ if(trace.size()<3000) trace+=s; c.desc=trace; };
	for(unsigned i=0;i<ops;++i){
		unsigned op=r.below(20);
		if(a.n==0 && op<14) op=15;
		switch(op){
		case 0: case 1: case 2: case 3: case 4: case 5: case 6: {
			unsigned id=r.below(a.n); if(a.m.count(id)){ unsigned k=key(); unsigned old=a.m[id];
				if(r.chance(1,2)){ log(vh::fmt("dec(%u,%u) ",id,k)); bool ch=a.q.decrease_key({id,k}); VH_EQ(ch,k<old,"decrease_key reports a change"); if(k<old) a.m[id]=k; c.count(k<old?"effective decreases":"ineffective decreases"); }
				else{ log(vh::fmt("inc(%u,%u) ",id,k)); bool ch=a.q.increase_key({id,k}); VH_EQ(ch,k>old,"increase_key reports a change"); if(k>old) a.m[id]=k; c.count(k>old?"effective increases":"ineffective increases"); }
			}else if(op<6||bias!=1){ unsigned k=key(); log(vh::fmt("push(%u,%u) ",id,k)); a.q.push({id,k}); a.m[id]=k; c.count("pushes"); }
			break; }
		case 7: case 8: case 9: case 10: case 11: if(bias==2 && op<10) break; if(!a.m.empty()){ log("pop "); unsigned mn=~0u; for(auto&e:a.m) mn=std::min(mn,e.second); auto p=a.q.pop(); VH_EQ(p.key,mn,"popped key is not the minimum"); VH_REQUIRE(a.m.count(p.id)&&a.m[p.id]==p.key, "popped id %u key %u", p.id, p.key); a.m.erase(p.id); h=vh::hcombine(h,p.id); c.count("pops"); } break;
		case 12: if(r.chance(1,4)){ log("clear "); a.q.clear(); a.m.clear(); c.count("clears"); } break;
		case 13: { log("fill "); for(unsigned k=0;k<a.n;++k) if(!a.m.count(k)){ unsigned v=key(); a.q.push({k,v}); a.m[k]=v; } break; }
		case 14: { log("swap "); swap(a.q,b.q); std::swap(a.m,b.m); std::swap(a.n,b.n); c.count("swaps"); check_mq(b,r,true); break; }
		case 15: { log("copy "); b.q=a.q; b.m=a.m; b.n=a.n; c.count("copies"); if(r.chance(1,2)){ MinIDQueue t(a.q); a.q=std::move(t); } break; }
		case 16: if(r.chance(1,10)){ log("new "); unsigned z=some_size(r); a.q=MinIDQueue(z); a.m.clear(); a.n=z; } break;
		default: check_mq(a,r,r.chance(1,3));
		}
		check_mq(a,r,false);
	}
	check_mq(a,r,true); check_mq(b,r,true);
	unsigned last=0; while(!a.q.empty()){ auto p=a.q.pop(); VH_REQUIRE(p.key>=last, "pop order"); last=p.key; VH_REQUIRE(a.m.count(p.id)&&a.m[p.id]==p.key, "drained id %u", p.id); a.m.erase(p.id); }
	VH_REQUIRE(a.m.empty(), "queue lost %zu elements", a.m.size());
	c.nontrivial(h);
}
static void set_queue(vh::Case&c){
	auto&r=c.rng; unsigned n=some_size(r); IDSetMinQueue q(n); std::set<unsigned>m; unsigned ops=r.in(10,4*n+40); uint64_t h=n*7+1;
	if(r.chance(1,5)){ IDSetMinQueue d; VH_REQUIRE(d.empty()&&d.id_count()==0&&d.peek()==invalid_id, "default constructed"); }
	std::string trace=vh::fmt("IDSetMinQueue n=%u: ",n);
	auto log=[&](std::string s){ if(trace.size()<3000) trace+=s; c.desc=trace; };
	for(unsigned i=0;i<ops;++i){
		unsigned op=r.below(16);
		if(n==0 && op<8) op=14;
		if(op<7){ unsigned id=r.chance(1,4)?r.pick({0u,n-1,n/2,n>1?n-2:0u}):r.below(n); log(vh::fmt("push(%u) ",id)); if(m.count(id)) c.count("repeated insertions"); q.push(id); m.insert(id); }
		else if(op<12){ if(!m.empty()){ log("pop "); unsigned x=q.pop(); VH_EQ(x,*m.begin(),"popped id"); m.erase(m.begin()); h=vh::hcombine(h,x); c.count("set pops"); } }
		else if(op==12){ if(r.chance(1,4)){ log("clear "); q.clear(); m.clear(); c.count("set clears"); } }
		else if(op==13){ IDSetMinQueue t(q); q=t; }
		else for(unsigned k=0;k<n;++k) VH_EQ(q.contains(k),(bool)m.count(k),"contains %u",k);
		VH_EQ(q.empty(),m.empty(),"empty"); VH_EQ(q.peek(), m.empty()?invalid_id:*m.begin(), "peek"); VH_EQ(q.id_count(),n,"id_count");
	}
	while(!q.empty()){ unsigned x=q.pop(); VH_REQUIRE(!m.empty() && x==*m.begin(), "drained %u", x); m.erase(m.begin()); }
	VH_REQUIRE(m.empty(),"set queue lost elements");
	for(unsigned k=0;k<n;++k) VH_REQUIRE(!q.contains(k), "drained queue contains %u", k);
	c.nontrivial(h);
}
static void flags(vh::Case&c){
	auto&r=c.rng; unsigned n=r.in(1,40); TimestampFlags f(n); std::vector<char>m(n,0); bool wrap=c.idx%16==3;
	uint64_t h=n; unsigned ops=r.in(20,200);
	c.desc=vh::fmt("TimestampFlags n=%u wrap=%d",n,(int)wrap);
	auto check=[&]{ for(unsigned i=0;i<n;++i) VH_EQ(f.is_set(i),(bool)m[i],"flag %u",i); };
	check();
	for(unsigned i=0;i<ops;++i){
		unsigned op=r.below(10), id=r.below(n); h=vh::hcombine(h,op*64+id);
		if(op<4){ f.set(id); m[id]=1; } else if(op<6){ f.reset_one(id); m[id]=0; }
		else if(op==6){ f.reset_all(); std::fill(m.begin(),m.end(),0); c.count("flag resets"); }
		else if(op==7 && wrap){
			unsigned k=r.pick({65533u,65534u,65535u,65536u,65537u,131070u,131071u,131072u,(unsigned)r.in(60000,70000)});
			for(unsigned j=0;j<k;++j){ f.reset_all(); if(r.chance(1,4096)){ unsigned z=r.below(n); f.set(z); VH_REQUIRE(f.is_set(z),"set flag lost"); if(j+1==k) f.reset_one(z); } }
			std::fill(m.begin(),m.end(),0); f.reset_all(); c.count("flag resets",k+1); c.count("wraps around 65536");
			check(); vh::beat(); wrap=r.chance(1,2);
		}else if(op==8 && wrap){ // no final extra reset, nothing set since
			unsigned k=r.pick({65533u,65534u,65535u,65536u,65537u}); for(unsigned j=0;j<k;++j) f.reset_all(); std::fill(m.begin(),m.end(),0); check(); c.count("wraps around 65536"); wrap=r.chance(1,2);
		}else if(op==9){ TimestampFlags t(f); f=t; }
		check();
	}
	c.nontrivial(h);
}
// more than 2^16 identifiers
static void large(vh::Case&c){
	auto&r=c.rng; unsigned n=r.pick({65535u,65536u,65537u,131071u,131073u,(unsigned)r.in(66000,300000)}); unsigned kind=c.idx%2; uint64_t h=n+kind;
	c.desc=vh::fmt("large n=%u kind %u",n,kind); auto id=[&]{ switch(r.below(4)){ case 0: return n-1-(unsigned)r.below(5); case 1: return 65530+(unsigned)r.below(std::min(12u,n-65530)); default: return (unsigned)r.below(n); } };
	if(kind==0){
		MinIDQueue q(n); std::set<std::pair<unsigned,unsigned>> m; std::vector<uint64_t> key(n,~0ull); unsigned range=r.pick({5u,100000u,0xfffffffeu});
		for(unsigned i=0;i<400000;++i){
			unsigned op=r.below(i<250000?5:9), x=id(), k=r.below((uint64_t)range+1);
			if(op<4){ if(key[x]==~0ull){ q.push({x,k}); key[x]=k; m.insert({k,x}); } else if(r.chance(1,2)){ bool ch=q.decrease_key({x,k}); VH_EQ(ch,k<key[x],"decrease_key reports a change"); if(ch){ m.erase({(unsigned)key[x],x}); key[x]=k; m.insert({k,x}); } } else { bool ch=q.increase_key({x,k}); VH_EQ(ch,k>key[x],"increase_key reports a change"); if(ch){ m.erase({(unsigned)key[x],x}); key[x]=k; m.insert({k,x}); } } }
			else if(!m.empty()){ auto p=q.pop(); VH_EQ(p.key,m.begin()->first,"popped key is not the minimum"); VH_REQUIRE(p.id<n&&key[p.id]==p.key,"popped id %u",p.id); m.erase({p.key,p.id}); key[p.id]=~0ull; h=vh::hcombine(h,p.key); }
			VH_EQ(q.contains_id(x),key[x]!=~0ull,"contains %u",x); if(key[x]!=~0ull) VH_EQ((uint64_t)q.get_key(x),key[x],"key of %u",x); VH_EQ(q.size(),(unsigned)m.size(),"size");
			if(!m.empty()) VH_EQ(q.peek().key,m.begin()->first,"peek key");
		}
		for(unsigned x=0;x<n;++x) VH_EQ(q.contains_id(x),key[x]!=~0ull,"contains %u",x);
		if(r.chance(2,3)){ // cleared while full, then used again
			if(r.chance(1,2)) for(unsigned x=0;x<n;++x) if(key[x]==~0ull){ unsigned k=r.below((uint64_t)range+1); q.push({x,k}); key[x]=k; m.insert({k,x}); }
			if(m.size()>65536) c.count("queues cleared with more than 65536 elements");
			q.clear(); m.clear(); std::fill(key.begin(),key.end(),~0ull); VH_REQUIRE(q.empty()&&q.size()==0,"not empty after clear");
			for(unsigned x=0;x<n;++x) VH_REQUIRE(!q.contains_id(x),"contains %u after clear",x);
			for(unsigned i=0;i<70000;++i){ unsigned x=id(), k=r.below((uint64_t)range+1); if(key[x]==~0ull){ q.push({x,k}); key[x]=k; m.insert({k,x}); } }
		}
		while(!q.empty()){ VH_REQUIRE(!m.empty(),"too many elements"); auto p=q.pop(); VH_EQ(p.key,m.begin()->first,"pop order"); VH_REQUIRE(m.erase({p.key,p.id})==1,"drained id %u",p.id); } VH_REQUIRE(m.empty(),"queue lost %zu elements",m.size()); c.count("large key queues");
	}else{
		IDSetMinQueue q(n); std::set<unsigned> m; TimestampFlags f(n); std::vector<char> fl(n,0);
		for(unsigned i=0;i<300000;++i){ unsigned x=id();
			if(r.below(i<200000?3:6)<2){ q.push(x); m.insert(x); } else if(!m.empty()){ unsigned y=q.pop(); VH_EQ(y,*m.begin(),"popped id"); m.erase(m.begin()); h=vh::hcombine(h,y); }
			VH_EQ(q.contains(x),(bool)m.count(x),"contains %u",x); VH_EQ(q.peek(),m.empty()?invalid_id:*m.begin(),"peek"); VH_EQ(q.empty(),m.empty(),"empty");
			unsigned y=id(); if(r.chance(2,3)){ f.set(y); fl[y]=1; } else { f.reset_one(y); fl[y]=0; } y=id(); VH_EQ(f.is_set(y),(bool)fl[y],"flag %u",y);
			if(i%60000==59999){ for(unsigned z=0;z<n;++z){ VH_EQ(f.is_set(z),(bool)fl[z],"flag %u",z); VH_EQ(q.contains(z),(bool)m.count(z),"contains %u",z); } unsigned k=r.pick({1u,2u,65535u,65536u}); for(unsigned j=0;j<k;++j) f.reset_all(); std::fill(fl.begin(),fl.end(),0); for(unsigned z=0;z<n;++z) VH_REQUIRE(!f.is_set(z),"flag %u survives a reset",z); vh::beat(); }
		}
		if(r.chance(2,3)){ q.clear(); m.clear(); VH_REQUIRE(q.empty()&&q.peek()==invalid_id,"not empty after clear"); for(unsigned z=0;z<n;++z) VH_REQUIRE(!q.contains(z),"contains %u after clear",z); for(unsigned i=0;i<70000;++i){ unsigned x=id(); q.push(x); m.insert(x); } }
		while(!q.empty()){ VH_REQUIRE(!m.empty(),"too many elements"); unsigned x=q.pop(); VH_EQ(x,*m.begin(),"drained id"); m.erase(m.begin()); } VH_REQUIRE(m.empty(),"set queue lost elements"); c.count("large set queues"); c.count("large flag sets");
	}
	c.nontrivial(h);
}
void vh_case(vh::Case&c){
	if(c.large(999)){ large(c); return; }
	switch(c.idx%4){ case 0: case 1: min_queue(c); break; case 2: set_queue(c); break; default: flags(c); }
	if(c.idx<3) c.sample(c.desc);
}
