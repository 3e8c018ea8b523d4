// C05: CH persistence
#include "chutil.h"
#include <sstream>
#include <fstream>
using namespace RoutingKit; using namespace gen; using namespace vh;
static std::string slurp(const std::string&f){ std::ifstream in(f,std::ios::binary); std::stringstream s; s<<in.rdbuf(); return s.str(); }
static void spit(const std::string&f, const std::string&d){ std::ofstream o(f,std::ios::binary); o.write(d.data(), d.size()); }
template<class F> bool throws(const F&f){ try{ f(); }catch(std::exception&){ return true; } return false; }
static void dirty_stack(){ volatile char x[4096]; for(unsigned i=0;i<sizeof x;++i) x[i]=(char)0xA5; }
void vh_case(Case&c){
	Rng&r=c.rng; Opt o; o.size_class = c.large(75) ? 3 : c.idx%50==0 ? 2 : (c.idx%3==0 ? 0 : 1); o.allow_inf=o.allow_huge=true;
	bool exact=!c.large(75)&&c.idx%25==7; Graph g=graph(r,o); ContractionHierarchy ch;
	if(exact){ // pad the arc counts to just around multiples of 512
		auto order=random_order(r,g.n); ch=ContractionHierarchy::build_given_order(order,g.tail,g.head,g.weight); unsigned f=ch.forward.head.size(), b=ch.backward.head.size();
		unsigned wf=(f/512+1+r.below(2))*512+r.below(3)-1, wb=(b/512+1+r.below(2))*512+r.below(3)-1; add_chains(g,std::max(wf,f)-f,std::max(wb,b)-b,order); c.desc=g.show();
		ch=ContractionHierarchy::build_given_order(order,g.tail,g.head,g.weight); if(ch.forward.head.size()%512==0||ch.backward.head.size()%512==0) c.count("hierarchies with arc counts that are multiples of 512");
	}else{ c.desc=g.show(); ch=build_ch(c,g); }
	Adj adj(g);
	std::string f=c.scratch+"/ch.bin";
	dirty_stack();
	ch.save_file(f); std::string bytes=slurp(f);
	std::ostringstream os; ch.write(os);
	std::string sink; ch.write([&](const char*p, unsigned long long l){ sink.append(p,l); });
	VH_REQUIRE(os.str()==bytes, "stream writer and file writer produce different bytes");
	VH_REQUIRE(sink==bytes, "sink writer and file writer produce different bytes");
	auto check=[&](const ContractionHierarchy&x, const char*what){
		try{ check_contraction_hierarchy_for_errors(x); }catch(std::exception&e){ c.fail(std::string(what)+": reloaded hierarchy is invalid: "+e.what()); }
		VH_REQUIRE(x.rank==ch.rank&&x.order==ch.order, "%s: order differs", what);
		std::string again; x.write([&](const char*p, unsigned long long l){ again.append(p,l); });
		VH_REQUIRE(again==bytes, "%s: serialising the reloaded hierarchy gives different bytes", what);
		ContractionHierarchyQuery a(ch), b(x);
		for(unsigned k=0;k<15;++k){
			unsigned s=r.below(g.n), t=r.below(g.n);
			a.reset().add_source(s).add_target(t).run(); b.reset().add_source(s).add_target(t).run();
			uint64_t want=dists(g,adj,s)[t];
			VH_REQUIRE(b.get_distance()==clampd(want), "%s: reloaded hierarchy answers %u->%u with %u instead of %u", what, s,t,b.get_distance(),clampd(want));
			VH_REQUIRE(a.get_arc_path()==b.get_arc_path() && a.get_node_path()==b.get_node_path(), "%s: paths differ %u->%u", what, s,t);
			c.count("queries on reloaded hierarchies");
		}
	};
	check(ContractionHierarchy::load_file(f), "load_file");
	{ std::istringstream in(bytes); check(ContractionHierarchy::read(in), "read(istream)"); }
	{ std::istringstream in(bytes); check(ContractionHierarchy::read(in, bytes.size()), "read(istream,size)"); }
	size_t pos=0; auto src=[&](char*p, unsigned long long l){ if(pos+l>bytes.size()) throw std::runtime_error("eof"); memcpy(p,bytes.data()+pos,l); pos+=l; };
	check(ContractionHierarchy::read(std::function<void(char*,unsigned long long)>(src)), "read(source)");
	pos=0; check(ContractionHierarchy::read(std::function<void(char*,unsigned long long)>(src), bytes.size()), "read(source,size)");
	{ // several objects in one stream
		std::stringstream ss; ch.write(ss); ch.write(ss); auto x=ContractionHierarchy::read(ss); auto y=ContractionHierarchy::read(ss); check(x,"first of two in a stream"); check(y,"second of two in a stream"); }
	if(bytes.size()>200) c.nontrivial(hstr(bytes));
	// truncation at every (or many) lengths
	std::vector<size_t>cuts;
	if(bytes.size()<=700) for(size_t i=0;i<bytes.size();++i) cuts.push_back(i);
	else { for(int i=0;i<60;++i) cuts.push_back(r.below(bytes.size())); for(size_t i=0;i<30;++i) cuts.push_back(i); for(size_t i=1;i<=70;++i) cuts.push_back(bytes.size()-i); }
	for(size_t n:cuts){
		std::string t=bytes.substr(0,n);
		VH_REQUIRE(throws([&]{ std::istringstream in(t); ContractionHierarchy::read(in); }), "read(istream) of a file truncated to %zu of %zu bytes did not throw", n, bytes.size());
		VH_REQUIRE(throws([&]{ std::istringstream in(t); ContractionHierarchy::read(in, n); }), "read(istream,size) of a file truncated to %zu of %zu bytes did not throw", n, bytes.size());
		if(n%7==0||bytes.size()-n<5){ spit(f,t); VH_REQUIRE(throws([&]{ ContractionHierarchy::load_file(f); }), "load_file of a file truncated to %zu of %zu bytes did not throw", n, bytes.size()); }
		c.count("truncations");
	}
	for(unsigned extra:{1u,2u,4u,8u,63u,64u,100u}){
		std::string t=bytes+std::string(extra,'\0'); spit(f,t);
		VH_REQUIRE(throws([&]{ ContractionHierarchy::load_file(f); }), "load_file with %u trailing bytes did not throw", extra);
		VH_REQUIRE(throws([&]{ std::istringstream in(t); ContractionHierarchy::read(in,t.size()); }), "read(istream,size) with %u trailing bytes did not throw", extra);
		c.count("trailing byte files");
	}
	for(unsigned b=0;b<64;++b){ if(b%3!=r.below(3)) continue;
		std::string t=bytes; t[b/8]^=1<<(b%8);
		VH_REQUIRE(throws([&]{ std::istringstream in(t); ContractionHierarchy::read(in,t.size()); }), "damaged format marker bit %u accepted", b);
		VH_REQUIRE(throws([&]{ std::istringstream in(t); ContractionHierarchy::read(in); }), "damaged format marker bit %u accepted without size", b);
		c.count("damaged format markers");
	}
	{ // sizes beyond 32 bits: a header of the right size is accepted (the source then refuses to deliver the content)
		struct Stop{}; uint32_t nc=1+r.below(1000), fa=r.pick({0u,1u<<30,(1u<<30)+513u,0xfffffff0u,3u<<29}), ba=r.pick({1u<<30,(1u<<31)+7u,0xffffffffu,5u}); std::string h=bytes.substr(0,24); memcpy(&h[8],&nc,4); memcpy(&h[12],&fa,4); memcpy(&h[16],&ba,4);
		uint64_t size=24+4*(3ull*nc+2+4ull*fa+4ull*ba)+((uint64_t)fa+511)/512*64+((uint64_t)ba+511)/512*64;
		auto attempt=[&](uint64_t sz){ unsigned calls=0; bool accepted=false; try{ ContractionHierarchy::read(std::function<void(char*,unsigned long long)>([&](char*p,unsigned long long l){ if(++calls==1&&l==24) memcpy(p,h.data(),24); else throw Stop(); }),sz); }catch(Stop){ accepted=true; }catch(std::exception&){} return accepted; };
		VH_REQUIRE(attempt(size),"a hierarchy of %u nodes and %u+%u arcs with its right file size %llu is rejected",nc,fa,ba,(unsigned long long)size); VH_REQUIRE(!attempt(size-4)&&!attempt(size+1)&&(size>>32==0||!attempt(size&0xffffffffull)),"a wrong size of a large hierarchy file is accepted"); c.count("file sizes beyond 32 bits"); }
	if(g.n){ // ranks that are no permutation
		unsigned i=r.below(g.n); uint32_t v=r.chance(1,2)&&g.n>1?ch.rank[(i+1)%g.n]:g.n+(r.chance(1,2)?0:r.below(1u<<30)); std::string t=bytes; memcpy(&t[24+4*i],&v,4);
		VH_REQUIRE(throws([&]{ std::istringstream in(t); ContractionHierarchy::read(in,t.size()); }),"rank %u of node %u makes the file corrupt but is accepted",v,i); VH_REQUIRE(throws([&]{ std::istringstream in(t); ContractionHierarchy::read(in); }),"corrupt rank accepted"); spit(f,t); VH_REQUIRE(throws([&]{ ContractionHierarchy::load_file(f); }),"corrupt rank accepted by load_file"); c.count("corrupt ranks"); }
	VH_REQUIRE(throws([&]{ ContractionHierarchy::load_file(c.scratch+"/does/not/exist"); }), "load_file of a missing file did not throw");
	VH_REQUIRE(throws([&]{ ch.save_file(c.scratch+"/no/such/dir/x"); }), "save_file to an unopenable path did not throw");
	if(access("/dev/full",W_OK)==0){ VH_REQUIRE(throws([&]{ ch.save_file("/dev/full"); }), "save_file to a full device did not throw"); c.count("full device writes"); }
	VH_REQUIRE(throws([&]{ unsigned n=0; ch.write([&](const char*, unsigned long long){ if(++n==3) throw std::runtime_error("sink failed"); }); }), "failure of the sink was swallowed");
	if(g.m()>8) c.sample(fmt("%zu bytes, ", bytes.size())+c.desc);
}
