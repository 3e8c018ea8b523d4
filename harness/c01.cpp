// C01: CH distances against an independent 64-bit Dijkstra.
#include "gen.h"
#include "chutil.h"
using namespace RoutingKit; using namespace gen; using namespace vh;

static ContractionHierarchy build(Case&c, const Graph&g){
	Rng&r=c.rng;
	std::function<void(std::string)>log; uint64_t lines=0;
	if(r.chance(1,4)) log=[&](std::string s){ lines+=s.size()>0; };
	unsigned variant=r.below(6); if(g.n>=2000 && g.n<20000 && r.chance(2,3)) variant%=3;
	static const unsigned pops[]={500,0,1,2,5,50,100000};
	unsigned mp=pops[r.below(7)];
	if(g.n>=2000 && g.n<20000) mp=std::max(mp,50u); // without witnesses the wide graphs become dense
	c.count(fmt("build variant %u", variant));
	c.desc += fmt(" variant=%u max_pop=%u", variant, mp);
	ContractionHierarchy ch;
	if(variant<=1) ch=ContractionHierarchy::build(g.n,g.tail,g.head,g.weight,log);
	else if(variant==2) ch=ContractionHierarchy::build(g.n,g.tail,g.head,g.weight,log,mp);
	else{
		auto o=some_order(r,g); if(g.n>=2000) mp=std::min(mp,100u); std::vector<unsigned>rank(g.n); for(unsigned i=0;i<g.n;++i) rank[o[i]]=i;
		if(variant==3) ch=ContractionHierarchy::build_given_order(o,g.tail,g.head,g.weight,log,mp);
		else if(variant==4) ch=ContractionHierarchy::build_given_rank(rank,g.tail,g.head,g.weight,log,mp);
		else ch=ContractionHierarchy::build_given_order(o,g.tail,g.head,g.weight,log);
		VH_REQUIRE(ch.order==o, "given order was not preserved: %s vs %s", show(ch.order).c_str(), show(o).c_str());
		VH_REQUIRE(ch.rank==rank, "given rank was not preserved");
	}
	VH_EQ(ch.node_count(), g.n, "node count");
	std::vector<char>seen(g.n,0);
	for(unsigned i=0;i<g.n;++i){ VH_REQUIRE(ch.order[i]<g.n && !seen[ch.order[i]] && ch.rank[ch.order[i]]==i, "order/rank are not inverse permutations at %u", i); seen[ch.order[i]]=1; }
	try{ check_contraction_hierarchy_for_errors(ch); }catch(std::exception&e){ c.fail(std::string("built hierarchy fails its consistency check: ")+e.what()); }
	c.count("shortcuts in hierarchies", ch.forward.head.size()+ch.backward.head.size());
	return ch;
}

void vh_case(Case&c){
	Rng&r=c.rng;
	Opt o; o.size_class = c.large(499) ? 3 : c.idx%40==0 ? 2 : (c.idx%3==0 ? 0 : 1); o.allow_inf=o.allow_huge=true;
	Graph g=graph(r,o);
	c.desc=g.show();
	c.count("graphs of kind "+g.kind);
	Adj adj(g);
	ContractionHierarchy ch=build(c,g);
	bool nontriv=false; uint64_t h=g.hash();
	ContractionHierarchyQuery shared(ch);
	unsigned queries = g.n<=14 ? 0 : 60;
	auto ask=[&](const std::vector<std::pair<unsigned,uint64_t>>&S, const std::vector<std::pair<unsigned,uint64_t>>&T, const std::vector<uint64_t>&d, const char*what){
		uint64_t best=INF64; for(auto&t:T) if(d[t.first]<INF64) best=std::min(best,d[t.first]+t.second);
		unsigned got;
		bool interleave = r.chance(1,2);
		auto fill=[&](ContractionHierarchyQuery&q){
			size_t i=0,j=0;
			while(i<S.size()||j<T.size()){
				bool src = j==T.size() || (i<S.size() && (!interleave || r.chance(1,2)));
				if(src){ if(S[i].second==0) q.add_source(S[i].first); else q.add_source(S[i].first,S[i].second); ++i; }
				else { if(T[j].second==0) q.add_target(T[j].first); else q.add_target(T[j].first,T[j].second); ++j; }
			}
			q.run();
			return q.get_distance();
		};
		if(r.chance(1,8)){ ContractionHierarchyQuery q(ch); got=fill(q); }
		else { shared.reset(); got=fill(shared); }
		c.count("queries"); if(best<INF64) { c.count("reachable queries"); if(best>0) nontriv=true; }
		if(got!=clampd(best)){
			std::string s; for(auto&x:S) s+=fmt(" s%u+%llu",x.first,(unsigned long long)x.second); for(auto&x:T) s+=fmt(" t%u+%llu",x.first,(unsigned long long)x.second);
			c.fail(fmt("%s query%s: reported distance %u, true distance %u", what, s.c_str(), got, clampd(best)));
		}
	};
	if(queries==0){
		for(unsigned s=0;s<g.n;++s){ auto d=dists(g,adj,s); for(unsigned t=0;t<g.n;++t) ask({{s,0}},{{t,0}},d,"single"); }
	}else{
		unsigned ns=std::min(g.n,12u);
		for(unsigned i=0;i<ns;++i){ unsigned s=r.below(g.n); auto d=dists(g,adj,s); for(unsigned k=0;k<25;++k) ask({{s,0}},{{(unsigned)r.below(g.n),0}},d,"single"); }
	}
	uint64_t omax = 1; for(auto w:g.weight) if(w<INF) omax=std::max<uint64_t>(omax,w);
	for(unsigned k=0;k<12;++k){
		unsigned a=r.in(1,std::min(g.n*2,r.chance(1,4)?20u:4u)), b=r.in(1,std::min(g.n*2,r.chance(1,4)?20u:4u));
		std::vector<std::pair<unsigned,uint64_t>>S,T;
		uint64_t om = r.chance(1,3)?0:std::min<uint64_t>(omax*2, (INF-2)/(g.n+4));
		for(unsigned i=0;i<a;++i) S.push_back({(unsigned)r.below(g.n), r.below(om+1)});
		for(unsigned i=0;i<b;++i) T.push_back({(unsigned)r.below(g.n), r.below(om+1)});
		auto d=dists(g,adj,S);
		ask(S,T,d,"multi");
		c.count("multi source/target queries");
	}
	if(nontriv) c.nontrivial(h);
	if(g.m()>5) c.sample(c.desc);
}
