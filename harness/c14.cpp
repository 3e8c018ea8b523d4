// C14: flow based cuts against an independent max-flow
#include "fragutil.h"
using namespace RoutingKit; using namespace frag;
static unsigned leaving(const GraphFragment&f, const std::vector<bool>&s){ unsigned k=0; for(unsigned a=0;a<f.tail.size();++a) if(s[f.tail[a]] && !s[f.head[a]]) ++k; return k; }
static std::vector<bool> check_side(const GraphFragment&f, const CutSide&c, const char*what){
	VH_EQ(c.is_node_on_side.size(), (uint64_t)f.node_count(), "%s: mask size", what);
	auto s=bools(c.is_node_on_side, f.node_count());
	unsigned k=std::count(s.begin(), s.end(), true);
	VH_EQ(c.node_on_side_count, k, "%s: reported side size", what);
	VH_EQ((unsigned)c.is_node_on_side.population_count(), k, "%s: population count", what);
	VH_EQ(c.cut_size, leaving(f,s), "%s: reported cut size vs arcs leaving the side", what);
	return s;
}
static void check_separator(vh::Case&c, const GraphFragment&f, const BitVector&cut){
	unsigned n=f.node_count();
	auto s=bools(cut,n); auto sep=derive_separator_from_cut(f,cut);
	VH_EQ(sep.size(), (uint64_t)n, "separator mask size");
	auto z=bools(sep,n); std::vector<bool>adj(n,false);
	for(unsigned a=0;a<f.tail.size();++a) if(s[f.tail[a]]!=s[f.head[a]]){
		VH_REQUIRE(z[f.tail[a]]||z[f.head[a]], "arc %u-%u joins the two sides after removing the separator", f.tail[a], f.head[a]);
		adj[f.tail[a]]=true;
	}
	bool in=false, out=false;
	for(unsigned x=0;x<n;++x) if(z[x]){ VH_REQUIRE(adj[x], "separator node %u has no neighbour across the cut", x); (s[x]?in:out)=true; c.count("separator nodes"); }
	VH_REQUIRE(!(in&&out), "separator has nodes on both sides");
}
// more nodes than 2^32/50: the balance is still kept
static void huge(vh::Case&c){
	auto&r=c.rng; unsigned balance=r.in(48,50), n=4294967296ull/balance+r.in(1,100000)*40; c.desc=vh::fmt("inertial flow with balance %u on %u nodes",balance,n); c.count("inertial flow on huge fragments");
	GraphFragment g; g.global_node_id.resize(n); for(unsigned i=0;i<n;++i) g.global_node_id[i]=i; g.first_out.assign(n+1,0); // a path on the first nodes
	const unsigned k=1000; g.first_out[0]=0; for(unsigned i=0;i<k;++i){ if(i){ g.tail.push_back(i); g.head.push_back(i-1); g.back_arc.push_back(i==1?0:2*(i-1)); } if(i+1<k){ g.tail.push_back(i); g.head.push_back(i+1); g.back_arc.push_back(2*i+1); } g.first_out[i+1]=g.tail.size(); } for(unsigned i=k;i<n;++i) g.first_out[i+1]=g.tail.size();
	for(unsigned a=0;a<g.arc_count();++a) if(g.tail[g.back_arc[a]]!=g.head[a]||g.head[g.back_arc[a]]!=g.tail[a]) abort();
	std::vector<float> lat(n),lon(n); for(unsigned i=0;i<n;++i){ lat[i]=i*1e-6f; lon[i]=(i%977)*1e-3f; } vh::beat();
	auto x=inertial_flow(g,balance,lat,lon,nullptr); uint64_t pop=x.is_node_on_side.population_count(); VH_EQ((uint64_t)x.is_node_on_side.size(),(uint64_t)n,"side size"); VH_EQ((uint64_t)x.node_on_side_count,pop,"node_on_side_count");
	unsigned cut=0; for(unsigned a=0;a<g.arc_count();++a) cut+=x.is_node_on_side.is_set(g.tail[a])&&!x.is_node_on_side.is_set(g.head[a]); VH_EQ(x.cut_size,cut,"cut size");
	uint64_t small=std::min(pop,(uint64_t)n-pop); VH_REQUIRE(small>=(uint64_t)n*balance/100,"the smaller side has %llu of %u nodes with balance %u",(unsigned long long)small,n,balance); c.nontrivial(n);
}
void vh_case(vh::Case&c){
	if(c.large(7999)){ huge(c); return; }
	auto&r=c.rng; gen::Opt o; o.size_class=c.large(999)?3:(c.is_rel()&&c.idx%60==7)?2:1;
	gen::Graph g=gen::graph(r,o);
	while(g.n<2) g=gen::graph(r,o);
	c.desc=g.show();
	GraphFragment f=make_graph_fragment(g.n,g.tail,g.head);
	if(r.chance(1,3)){ auto ps=decompose_graph_fragment_into_connected_components(f); auto&p=ps[r.below(ps.size())]; if(p.node_count()>=2) f=p; }
	unsigned n=f.node_count();
	unsigned rounds=c.is_asan()?2:3;
	for(unsigned k=0;k<rounds;++k){
		vh::beat();
		std::vector<bool>S(n,false),T(n,false); BitVector is_s(n,false), is_t(n,false);
		unsigned ns=r.in(1,r.chance(1,2)?1:std::max(1u,n/3)), nt=r.in(1,r.chance(1,2)?1:std::max(1u,n/3));
		auto p=gen::random_order(r,n);
		if(ns+nt>n){ ns=1; nt=1; }
		for(unsigned i=0;i<ns;++i){ S[p[i]]=true; is_s.set(p[i]); }
		for(unsigned i=0;i<nt;++i){ T[p[n-1-i]]=true; is_t.set(p[n-1-i]); }
		unsigned want=max_flow(f,S,T);
		c.desc=g.show()+vh::fmt(" terminals %s|%s", vh::show(std::vector<unsigned>(p.begin(),p.begin()+ns)).c_str(), vh::show(std::vector<unsigned>(p.end()-nt,p.end())).c_str());
		BlockingFlow flow(f,is_s,is_t);
		unsigned last=flow.get_current_flow_intensity(), steps=0; VH_EQ(last,0u,"initial flow");
		while(!flow.is_finished()){
			flow.advance(); unsigned now=flow.get_current_flow_intensity();
			VH_REQUIRE(now>=last, "flow decreased from %u to %u", last, now);
			VH_REQUIRE(now<=want, "flow %u exceeds the minimum cut %u", now, want);
			last=now; VH_REQUIRE(++steps<=n+want+5, "flow does not finish");
		}
		VH_EQ(flow.get_current_flow_intensity(), want, "final flow vs minimum cut");
		flow.advance(); VH_REQUIRE(flow.is_finished() && flow.get_current_flow_intensity()==want, "advance after the end changed the flow");
		auto sc=flow.get_source_cut(), tc=flow.get_target_cut(), bc=flow.get_balanced_cut();
		auto s=check_side(f,sc,"source cut"), t=check_side(f,tc,"target cut"), b=check_side(f,bc,"balanced cut");
		bool b_has_s=false;
		for(unsigned x=0;x<n;++x) if(S[x]) b_has_s|=b[x];
		for(unsigned x=0;x<n;++x){
			if(S[x]){ VH_REQUIRE(s[x], "source %u not in the source cut", x); VH_REQUIRE(!t[x], "source %u in the target cut", x); VH_REQUIRE((bool)b[x]==b_has_s, "balanced cut splits the sources"); }
			if(T[x]){ VH_REQUIRE(t[x], "target %u not in the target cut", x); VH_REQUIRE(!s[x], "target %u in the source cut", x); VH_REQUIRE((bool)b[x]==!b_has_s, "balanced cut has wrong targets"); }
		}
		VH_EQ(sc.cut_size,want,"source cut size"); VH_EQ(tc.cut_size,want,"target cut size"); VH_EQ(bc.cut_size,want,"balanced cut size");
		VH_REQUIRE(bc.node_on_side_count*2<=n, "balanced cut side has %u of %u nodes", bc.node_on_side_count, n);
		for(auto*q:{&sc,&tc,&bc}){
			unsigned before=q->node_on_side_count; CutSide z=*q; pick_smaller_side(z); check_side(f,z,"picked side"); VH_REQUIRE(z.node_on_side_count*2<=n, "smaller side has %u of %u", z.node_on_side_count, n);
			VH_REQUIRE(z.node_on_side_count==before||z.node_on_side_count==n-before, "picked side is neither the side nor its complement");
			check_separator(c,f,q->is_node_on_side);
		}
		if(want>0) c.count("flows with positive value");
		c.count("flows"); c.maxi("flow", want); c.count("blocking phases", steps);
	}
	{ BitVector cut(n,false); for(unsigned x=0;x<n;++x) if(r.chance(1,3)) cut.set(x); check_separator(c,f,cut); cut.inplace_not(); check_separator(c,f,cut); }
	{
		unsigned bal=r.pick({0u,1u,10u,20u,25u,33u,40u,45u,49u,50u});
		c.desc=g.show()+vh::fmt(" inertial flow balance %u", bal);
		auto cut=inertial_flow(f,bal,g.lat,g.lon, r.chance(1,2)?std::function<void(const std::string&)>([](const std::string&){}):nullptr);
		auto s=check_side(f,cut,"inertial flow");
		unsigned side=std::max(1u,(unsigned)((uint64_t)n*bal/100));
		VH_REQUIRE(cut.node_on_side_count>=side, "side of %u nodes although balance %u%% of %u asks for %u", cut.node_on_side_count, bal, n, side);
		VH_REQUIRE(cut.node_on_side_count*2<=n, "inertial side has %u of %u nodes", cut.node_on_side_count, n);
		check_separator(c,f,cut.is_node_on_side);
		// minimality over the four directions when the terminals are uniquely determined
		bool unique=true; unsigned best=~0u;
		for(int d=0;d<4 && unique;++d){
			std::vector<std::pair<float,unsigned>>k;
			for(unsigned x=0;x<n;++x){ float la=g.lat[f.global_node_id[x]], lo=g.lon[f.global_node_id[x]]; volatile float v= d==0?la:d==1?lo:d==2?la+lo:la-lo; k.push_back({v,x}); }
			std::sort(k.begin(),k.end());
			if(k[side-1].first==k[side].first && side<n-side) unique=false;
			if(side==n-side && k[side-1].first==k[side].first) unique=false;
			if(n-side>0 && k[n-side-1].first==k[n-side].first) unique=false;
			std::vector<bool>S(n,false),T(n,false); for(unsigned i=0;i<side;++i){ S[k[i].second]=true; T[k[n-1-i].second]=true; }
			if(unique) best=std::min(best,max_flow(f,S,T));
		}
		if(unique){ VH_EQ(cut.cut_size,best,"inertial flow cut vs the minimum over the four directions"); c.count("inertial minimality checks"); }
		auto c2=inertial_flow(f,g.lat,g.lon); check_side(f,c2,"default inertial flow"); VH_REQUIRE(c2.node_on_side_count*2<=n, "default inertial side has %u of %u nodes", c2.node_on_side_count, n);
		VH_REQUIRE(c2.node_on_side_count>=std::max(1u,n*25/100), "default inertial side has only %u of %u nodes", c2.node_on_side_count, n);
		c.count("inertial flow cuts",2);
	}
	if(f.tail.size()) c.nontrivial(g.hash());
	if(c.idx<2) c.sample(c.desc);
}
