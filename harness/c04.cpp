// C04: extra weights. The decisive link function is concatenation (the free monoid): its result *is* the path.
#include "chutil.h"
#include <climits>
using namespace RoutingKit; using namespace gen; using namespace vh;
struct Seq{ std::vector<unsigned>arcs; bool valid=false; Seq(){} explicit Seq(unsigned a):arcs{a},valid(true){} };
struct Concat{ Seq operator()(const Seq&l, const Seq&r)const{ if(!l.valid||!r.valid) throw Violation("link was called with a default constructed weight"); Seq s; s.valid=true; s.arcs=l.arcs; s.arcs.insert(s.arcs.end(), r.arcs.begin(), r.arcs.end()); return s; } };
// affine functions modulo 2^32: associative, not commutative
struct Aff{ unsigned a=0,b=0; bool operator==(const Aff&o)const{return a==o.a&&b==o.b;} };
struct Compose{ Aff operator()(const Aff&l, const Aff&r)const{ return Aff{l.a*r.a, r.a*l.b+r.b}; } };
static unsigned satu(unsigned l, unsigned r){ uint64_t s=(uint64_t)l+r; return s>=INF?INF:(unsigned)s; }
static int sati(int l, int r){ long long s=(long long)l+r; return s>INT_MAX?INT_MAX:s<INT_MIN?INT_MIN:(int)s; }
void vh_case(Case&c){
	Rng&r=c.rng;
	{ // the provided saturating addition
		SaturatedWeightAddition add;
		for(int k=0;k<20;++k){
			unsigned a=r.chance(1,2)?r.below(INF+1ull):INF-r.below(5), b=r.chance(1,2)?r.below(INF+1ull):r.chance(1,2)?INF-r.below(5):r.below(5);
			VH_EQ(add(a,b), satu(a,b), "saturated %u+%u", a,b);
			int x=(int)r.next(), y=(int)r.next(); if(r.chance(1,3)) x=r.chance(1,2)?INT_MAX-(int)r.below(3):INT_MIN+(int)r.below(3); if(r.chance(1,3)) y=r.chance(1,2)?INT_MAX-(int)r.below(3):INT_MIN+(int)r.below(3); if(r.chance(1,5)) x=(int)r.below(3)-1; if(r.chance(1,5)) y=(int)r.below(3)-1;
			VH_EQ(add(x,y), sati(x,y), "saturated %d+%d", x,y);
		}
	}
	Opt o; o.size_class = c.large(373) ? 3 : c.idx%40==0 ? 2 : (c.idx%3==0 ? 0 : 1); o.allow_inf=o.allow_huge=true;
	Graph g=graph(r,o); c.desc=g.show(); Adj adj(g); Graph rg=reversed(g); Adj radj(rg);
	auto ch=build_ch(c,g);
	uint64_t om=offset_limit(g); bool nt=false;
	std::vector<Seq>seq; std::vector<unsigned>ux; std::vector<int>ix; std::vector<Aff>ax;
	unsigned mode=r.below(3);
	for(unsigned a=0;a<g.m();++a){
		seq.push_back(Seq(a));
		ux.push_back(mode==0?1:mode==1?r.below(1000):r.chance(1,3)?INF-r.below(3):r.below(INF));
		ix.push_back(mode==0?1:mode==1?(int)r.below(100)-50: (r.chance(1,3)?(r.chance(1,2)?INT_MAX:INT_MIN):(int)r.next()));
		ax.push_back(Aff{(unsigned)r.next()|1,(unsigned)r.next()});
	}
	// saturated signed addition is not associative with mixed signs: keep one sign when it can saturate
	if(mode==2){ bool neg=r.chance(1,2); for(auto&x:ix){ if(neg!=(x<0)) x = x==INT_MIN?INT_MAX : -x; if(!neg && x<0) x=0; if(neg && x>0) x=0; } }
	SaturatedWeightAddition add; Concat cat; Compose comp;
	ContractionHierarchyExtraWeight<Seq>cseq(ch,seq,cat);
	ContractionHierarchyExtraWeight<unsigned>cu(ch,ux,add);
	ContractionHierarchyExtraWeight<int>ci; if(r.chance(1,2)) { ci.reset(ch,std::vector<int>(ix.size(),5),add); } ci.reset(ch,ix,add);
	ContractionHierarchyExtraWeight<Aff>ca(ch,ax,comp);
	auto check_values=[&](const std::vector<unsigned>&arcs, unsigned gu, unsigned gcu, int gi, int gci, Aff ga, Aff gca, const char*what){
		unsigned wu=0; int wi=0; Aff wa;
		for(size_t k=0;k<arcs.size();++k){ unsigned a=arcs[k]; if(k==0){wu=ux[a];wi=ix[a];wa=ax[a];} else {wu=satu(wu,ux[a]);wi=sati(wi,ix[a]);wa=comp(wa,ax[a]);} }
		VH_REQUIRE(gu==wu, "%s: raw unsigned extra weight %u, along the path %s it is %u", what, gu, show(arcs).c_str(), wu);
		VH_REQUIRE(gcu==wu, "%s: precomputed unsigned extra weight %u, along the path %s it is %u", what, gcu, show(arcs).c_str(), wu);
		VH_REQUIRE(gi==wi, "%s: raw int extra weight %d, along the path %s it is %d", what, gi, show(arcs).c_str(), wi);
		VH_REQUIRE(gci==wi, "%s: precomputed int extra weight %d, along the path %s it is %d", what, gci, show(arcs).c_str(), wi);
		VH_REQUIRE(ga==wa, "%s: non-commutative extra weight differs along %s", what, show(arcs).c_str());
		VH_REQUIRE(gca==wa, "%s: precomputed non-commutative extra weight differs along %s", what, show(arcs).c_str());
		c.count("extra weight values checked",6);
	};
	ContractionHierarchyQuery q(ch);
	for(unsigned k=0;k<15;++k){
		auto S=random_ends(r,g,r.chance(1,3)?5:1,r.chance(1,2)?0:om), T=random_ends(r,g,r.chance(1,3)?5:1,r.chance(1,2)?0:om);
		q.reset(); for(auto&x:S) q.add_source(x.first,x.second); for(auto&x:T) q.add_target(x.first,x.second); q.run();
		std::string ctx="point query"+show_ends(S,T);
		auto arcs=q.get_arc_path();
		Seq s1=q.get_extra_weight_distance(seq,cat), s2=q.get_extra_weight_distance(cseq,cat);
		VH_REQUIRE(s1.arcs==arcs, "%s: linked arc sequence %s is not the arc path %s", ctx.c_str(), show(s1.arcs).c_str(), show(arcs).c_str());
		VH_REQUIRE(s2.arcs==arcs, "%s: precomputed linked arc sequence %s is not the arc path %s", ctx.c_str(), show(s2.arcs).c_str(), show(arcs).c_str());
		VH_REQUIRE(s1.valid==!arcs.empty() && s2.valid==!arcs.empty(), "%s: default value expected exactly for arc-less paths", ctx.c_str());
		uint64_t b=best_to(dists(g,adj,S),T);
		if(b<INF){ uint64_t sum=check_walk(g,arcs,q.get_used_source(),q.get_used_target(),ctx.c_str()); VH_REQUIRE(sum+offset_of(S,q.get_used_source())+offset_of(T,q.get_used_target())==b, "%s: not a shortest path", ctx.c_str()); if(arcs.size()>1) nt=true; }
		else VH_REQUIRE(arcs.empty(), "%s: unreachable", ctx.c_str());
		const unsigned*up=ux.data();
		check_values(arcs,r.chance(1,2)?q.get_extra_weight_distance(ux,add):(g.m()?q.get_extra_weight_distance(up,add):q.get_extra_weight_distance(ux,add)),q.get_extra_weight_distance(cu,add),q.get_extra_weight_distance(ix,add),q.get_extra_weight_distance(ci,add),q.get_extra_weight_distance(ax,comp),q.get_extra_weight_distance(ca,comp),ctx.c_str());
		c.count("point queries");
	}
	for(unsigned k=0;k<3;++k){
		bool tt=r.chance(1,2);
		std::vector<unsigned>pins; unsigned np=r.below(std::min(g.n,40u)+1); for(unsigned i=0;i<np;++i) pins.push_back(r.below(g.n));
		q.reset(); if(tt) q.pin_targets(pins); else q.pin_sources(pins);
		for(unsigned run=0;run<3;++run){
			if(run){ if(tt) q.reset_source(); else q.reset_target(); }
			auto S=random_ends(r,g,r.chance(1,3)?5:1,r.chance(1,2)?0:om);
			for(auto&x:S){ if(tt) q.add_source(x.first,x.second); else q.add_target(x.first,x.second); }
			if(tt) q.run_to_pinned_targets(); else q.run_to_pinned_sources();
			auto d = tt ? dists(g,adj,S) : dists(rg,radj,S);
			std::string ctx=std::string(tt?"pinned targets":"pinned sources")+show_ends(S,{});
			std::vector<Seq>r1,r2,tmp(g.n),r3(pins.size());
			if(tt){ r1=q.get_extra_weight_distances_to_targets(seq,cat); r2=q.get_extra_weight_distances_to_targets(cseq,cat); q.get_extra_weight_distances_to_targets(cseq,cat,tmp,r3); }
			else { r1=q.get_extra_weight_distances_to_sources(seq,cat); r2=q.get_extra_weight_distances_to_sources(cseq,cat); q.get_extra_weight_distances_to_sources(cseq,cat,tmp,r3); }
			std::vector<unsigned>vu,vcu,tu(g.n); std::vector<int>vi,vci,ti(g.n); std::vector<Aff>va,vca;
			if(tt){ vu=q.get_extra_weight_distances_to_targets(ux,add); vcu=q.get_extra_weight_distances_to_targets(cu,add,tu); vi=q.get_extra_weight_distances_to_targets(ix,add,ti); vci=q.get_extra_weight_distances_to_targets(ci,add); va=q.get_extra_weight_distances_to_targets(ax,comp); vca=q.get_extra_weight_distances_to_targets(ca,comp); }
			else { vu=q.get_extra_weight_distances_to_sources(ux,add); vcu=q.get_extra_weight_distances_to_sources(cu,add,tu); vi=q.get_extra_weight_distances_to_sources(ix,add,ti); vci=q.get_extra_weight_distances_to_sources(ci,add); va=q.get_extra_weight_distances_to_sources(ax,comp); vca=q.get_extra_weight_distances_to_sources(ca,comp); }
			VH_REQUIRE(r1.size()==pins.size()&&r2.size()==pins.size()&&vu.size()==pins.size()&&vca.size()==pins.size()&&vi.size()==pins.size(), "%s: result size", ctx.c_str());
			auto dist = tt?q.get_distances_to_targets():q.get_distances_to_sources();
			for(size_t j=0;j<pins.size();++j){
				std::string cx=ctx+fmt(" entry %zu node %u", j, pins[j]);
				VH_REQUIRE(dist[j]==clampd(d[pins[j]]), "%s: distance %u instead of %u after reading extra weights", cx.c_str(), dist[j], clampd(d[pins[j]]));
				VH_REQUIRE(r1[j].arcs==r2[j].arcs && r2[j].arcs==r3[j].arcs, "%s: raw, precomputed and in-place results differ", cx.c_str());
				auto&arcs=r1[j].arcs;
				VH_REQUIRE(r1[j].valid==!arcs.empty(), "%s: default value expected", cx.c_str());
				if(d[pins[j]]>=INF) VH_REQUIRE(arcs.empty(), "%s: unreachable entry has a path", cx.c_str());
				else if(arcs.empty()){ VH_REQUIRE(offset_of(S,pins[j])==d[pins[j]], "%s: empty path although the node is no best end", cx.c_str()); }
				else {
					unsigned e = tt ? (arcs[0]<g.m()?g.tail[arcs[0]]:0) : (arcs.back()<g.m()?g.head[arcs.back()]:0);
					uint64_t off=offset_of(S,e); VH_REQUIRE(off<INF64, "%s: path end %u was not added", cx.c_str(), e);
					uint64_t sum = tt ? check_walk(g,arcs,e,pins[j],cx.c_str()) : check_walk(g,arcs,pins[j],e,cx.c_str());
					VH_REQUIRE(sum+off==d[pins[j]], "%s: path %s has length %llu, distance is %llu", cx.c_str(), show(arcs).c_str(), (unsigned long long)(sum+off), (unsigned long long)d[pins[j]]);
					if(arcs.size()>1) nt=true;
					c.count("pinned paths checked");
				}
				check_values(arcs,vu[j],vcu[j],vi[j],vci[j],va[j],vca[j],cx.c_str());
			}
		}
	}
	if(nt) c.nontrivial(g.hash());
	if(g.m()>8) c.sample(c.desc);
}
