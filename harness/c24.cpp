// C24: protobuf primitives against an independent encoder / decoder, messages in exact-size heap buffers.
#include "vh.h"
#include "protobuf.h"
#include <cmath>
#include <memory>
using namespace RoutingKit;
using namespace vh;

struct Ev{ int kind; uint64_t field; uint64_t bits; std::string s;
	bool operator==(const Ev&o)const{ return kind==o.kind&&field==o.field&&bits==o.bits&&s==o.s; } };
static uint64_t dbits(double d){ uint64_t b; memcpy(&b,&d,8); return b; }

static void put_varint(std::string&o, uint64_t x){ while(x>=128){ o.push_back((char)(x|128)); x>>=7; } o.push_back((char)x); }

// reference decoder: {ok, events}
static bool ref_varint(const std::string&m, size_t&p, uint64_t&v){
	v=0;
	for(unsigned i=0;i<10;++i){
		if(p>=m.size()) return false;
		unsigned char b=m[p++];
		if(i==9 && (b&~1u)!=0) return false;       // does not fit, or continues after ten bytes
		v|=(uint64_t)(b&127)<<(7*i);
		if(!(b&128)) return true;
	}
	return false;
}
static bool ref_decode(const std::string&m, std::vector<Ev>&ev){
	size_t p=0;
	while(p<m.size()){
		uint64_t h; if(!ref_varint(m,p,h)) return false;
		uint64_t f=h>>3;
		switch(h&7){
			case 0:{ uint64_t v; if(!ref_varint(m,p,v)) return false; ev.push_back({0,f,v,""}); break; }
			case 1:{ if(m.size()-p<8) return false; uint64_t b; memcpy(&b,&m[p],8); p+=8; ev.push_back({1,f,b,""}); break; }
			case 5:{ if(m.size()-p<4) return false; float x; memcpy(&x,&m[p],4); p+=4; ev.push_back({1,f,dbits((double)x),""}); break; }
			case 2:{ uint64_t l; if(!ref_varint(m,p,l)) return false; if(m.size()-p<l) return false; ev.push_back({2,f,l,m.substr(p,l)}); p+=l; break; }
			default: return false;
		}
	}
	return true;
}

static bool real_decode(const std::string&m, unsigned align, std::vector<Ev>&ev){
	// exact-size heap copy so that any byte read outside is visible to the monitor
	std::unique_ptr<char[]> buf(new char[m.size()+align]);
	char*b=buf.get()+align; if(!m.empty()) memcpy(b,m.data(),m.size());
	try{
		decode_protobuf_message_with_callbacks((const char*)b,(const char*)b+m.size(),
			[&](uint64_t f, uint64_t v){ ev.push_back({0,f,v,""}); },
			[&](uint64_t f, double v){ ev.push_back({1,f,dbits(v),""}); },
			[&](uint64_t f, const char*x, const char*y){
				VH_REQUIRE(x>=b && y>=x && y<=b+m.size(), "a string callback got a range outside of the message");
				ev.push_back({2,f,(uint64_t)(y-x),std::string(x,y)}); });
	}catch(Violation&){ throw; }
	catch(std::exception&){ return false; }
	return true;
}
static std::string hex(const std::string&m){ std::string r; for(unsigned char ch:m){ if(r.size()>400){ r+="..."; break; } r+=fmt("%02x",ch); } return r; }

static uint64_t interesting(Rng&r){
	switch(r.below(7)){
		case 0: return r.below(4);
		case 1: return (1ull<<(7*r.below(10)))-1+r.below(2);
		case 2: return (1ull<<r.below(64));
		case 3: return (1ull<<r.below(64))-1;
		case 4: return ~0ull-r.below(3);
		case 5: return r.next()>>r.below(64);
		default: return r.next();
	}
}

static void check(Case&c, const std::string&m, unsigned align, bool must_be_well_formed){
	std::vector<Ev> a,b; bool ra=ref_decode(m,a);
	bool rb;
	try{ rb=real_decode(m,align,b); }catch(Violation&v){ throw Violation(v.msg+" message "+hex(m)); }
	VH_REQUIRE(!must_be_well_formed || ra, "harness: encoder and reference decoder disagree");
	VH_REQUIRE(ra==rb, "message %s is %s but decoding %s", hex(m).c_str(), ra?"well-formed":"malformed", rb?"succeeded":"threw");
	VH_REQUIRE(a.size()==b.size(), "message %s: %zu fields reported instead of %zu", hex(m).c_str(), b.size(), a.size());
	for(size_t i=0;i<a.size();++i) VH_REQUIRE(a[i]==b[i], "message %s: field number %zu decodes to kind %d id %llu value %llu instead of kind %d id %llu value %llu", hex(m).c_str(), i, b[i].kind,(unsigned long long)b[i].field,(unsigned long long)b[i].bits,a[i].kind,(unsigned long long)a[i].field,(unsigned long long)a[i].bits);
	c.count(ra?"well-formed messages":"malformed messages"); c.count("fields decoded",b.size());
}

void vh_case(Case&c){
	Rng&r=c.rng;
	// varint primitive and zigzag
	for(unsigned k=0;k<8;++k){
		uint64_t x=interesting(r); std::string o; put_varint(o,x);
		unsigned padded=r.chance(1,4)?(unsigned)r.below(11-o.size()):0; // non-minimal encodings of at most ten bytes are legal
		for(unsigned i=0;i<padded;++i){ o.back()=(char)(o.back()|128); o.push_back(0); }
		std::string tail(r.below(3),'\x7f');
		std::unique_ptr<char[]> buf(new char[o.size()+tail.size()]); memcpy(buf.get(),o.data(),o.size()); if(!tail.empty()) memcpy(buf.get()+o.size(),tail.data(),tail.size());
		c.desc="varint "+hex(o);
		const char*p=buf.get(); uint64_t y=decode_varint_as_uint64_and_advance_first_parameter(p,buf.get()+o.size()+tail.size());
		VH_REQUIRE(x==y,"varint %s decodes to %llu instead of %llu",hex(o).c_str(),(unsigned long long)y,(unsigned long long)x);
		VH_REQUIRE(p==buf.get()+o.size(),"varint %s: %td bytes consumed",hex(o).c_str(),p-buf.get());
		int64_t z=zigzag_convert_uint64_to_int64(x);
		__int128 want = (x&1) ? -(__int128)(x>>1)-1 : (__int128)(x>>1);
		VH_REQUIRE((__int128)z==want,"zigzag of %llu is %lld",(unsigned long long)x,(long long)z);
		// every proper prefix is truncated
		for(size_t l=0;l<o.size();++l){
			std::unique_ptr<char[]> t(new char[l]); if(l) memcpy(t.get(),o.data(),l); const char*q=t.get(); bool threw=false;
			try{ decode_varint_as_uint64_and_advance_first_parameter(q,t.get()+l); }catch(std::exception&){ threw=true; }
			VH_REQUIRE(threw,"truncated varint %s (%zu bytes) did not throw",hex(o).c_str(),l);
		}
		c.count("varints");
	}
	{ // overflowing and overlong varints
		std::string o; unsigned len=9+r.below(4);
		for(unsigned i=0;i<len;++i) o.push_back((char)(128|r.below(128)));
		o.push_back((char)(r.chance(1,2)?r.below(128):r.below(3)));
		if(r.chance(1,3)) for(size_t i=0;i+1<o.size();++i) o[i]=(char)0x80;
		std::unique_ptr<char[]> t(new char[o.size()]); memcpy(t.get(),o.data(),o.size()); const char*q=t.get();
		size_t p=0; uint64_t v=0,w=0; bool ok=ref_varint(o,p,v), ok2=true;
		c.desc="long varint "+hex(o);
		try{ w=decode_varint_as_uint64_and_advance_first_parameter(q,t.get()+o.size()); }catch(std::exception&){ ok2=false; }
		VH_REQUIRE(ok==ok2,"varint of %zu bytes %s: %s instead of %s",o.size(),hex(o).c_str(),ok2?"accepted":"rejected",ok?"accepted":"rejected");
		if(ok) VH_REQUIRE(v==w&&q==t.get()+p,"varint %s",hex(o).c_str());
		c.count("long varints");
	}
	// whole messages
	std::string m; unsigned n=r.below(12); std::vector<size_t> bounds;
	for(unsigned i=0;i<n;++i){
		bounds.push_back(m.size());
		uint64_t field= r.chance(3,4)?1+r.below(40):(interesting(r)>>3);
		switch(r.below(4)){
			case 0: put_varint(m,field<<3|0); put_varint(m,interesting(r)); break;
			case 1:{ put_varint(m,field<<3|1); uint64_t b=r.chance(1,2)?dbits(r.real(-1e9,1e9)):r.next(); if(((b>>52)&2047)==2047) b=dbits(INFINITY); m.append((char*)&b,8); break; }
			case 2:{ put_varint(m,field<<3|5); float f=r.chance(1,2)?(float)r.real(-1e4,1e4):(float)r.below(100); m.append((char*)&f,4); break; }
			default:{ put_varint(m,field<<3|2); std::string s(r.chance(1,10)?r.below(400):r.below(20),'\0'); for(auto&ch:s) ch=(char)r.next(); put_varint(m,s.size()); m+=s; }
		}
	}
	unsigned align=r.below(9);
	c.desc="message "+hex(m);
	check(c,m,align,true);
	if(m.size()<400) for(size_t l=0;l<m.size();++l) check(c,m.substr(0,l),align,false);
	c.count("truncations",std::min<size_t>(m.size(),400));
	for(unsigned k=0;k<12;++k){
		std::string d=m; unsigned e=1+r.below(3);
		for(unsigned i=0;i<e;++i) switch(r.below(5)){
			case 0: if(!d.empty()) d[r.below(d.size())]=(char)r.next(); break;
			case 1: if(!d.empty()) d[r.below(d.size())]^=(char)(1<<r.below(8)); break;
			case 2: d.insert(d.begin()+r.below(d.size()+1),(char)r.next()); break;
			case 3: if(!d.empty()) d.erase(d.begin()+r.below(d.size())); break;
			default:{ std::string x; put_varint(x,(1+r.below(20))<<3|2); put_varint(x, r.chance(1,2)?interesting(r):d.size()+r.below(20)); d.insert(r.pick(std::vector<size_t>{0,d.size()}),x); }
		}
		// signalling NaN payloads are outside of what a float to double conversion preserves: avoid them
		std::vector<Ev> t; ref_decode(d,t); bool nan=false; for(auto&x:t) if(x.kind==1&&((x.bits>>52)&2047)==2047) nan=true;
		if(!nan) check(c,d,r.below(9),false);
	}
	{ std::string d(r.below(40),'\0'); for(auto&ch:d) ch=(char)(r.chance(1,3)?0xff:r.next());
	  std::vector<Ev> t; ref_decode(d,t); bool nan=false; for(auto&x:t) if(x.kind==1&&((x.bits>>52)&2047)==2047) nan=true;
	  if(!nan) check(c,d,r.below(9),false); }
	if(n>1) c.nontrivial(hstr(m));
	c.sample(c.desc);
}
