// C10: partial customization equals full customization along long update histories
#include "cchutil.h"
using namespace RoutingKit; using namespace gen; using namespace vh;
void vh_case(Case&c){
	Rng&r=c.rng; Opt o; o.size_class = c.large(623) ? 3 : c.idx%40==0 ? 2 : (c.idx%3==0 ? 0 : 1); o.allow_inf=o.allow_huge=o.allow_dense=true; o.allow_empty=false;
	Graph g=graph(r,o); c.desc=g.show();
	auto cch=build_cch(c,g);
	CustomizableContractionHierarchyMetric m(cch,g.weight), full(cch,g.weight); m.customize();
	CustomizableContractionHierarchyPartialCustomization part(cch);
	CustomizableContractionHierarchyQuery q(m), fq(full); bool nt=false;
	unsigned rounds=r.in(1,c.idx%7==0?40:8); std::string d0=c.desc;
	unsigned wmax=1; for(auto w:g.weight) if(w<INF) wmax=std::max(wmax,w);
	for(unsigned k=0;k<rounds;++k){
		c.desc=d0+fmt(" round %u updates:",k);
		std::vector<unsigned>upd; unsigned nu=r.chance(1,2)?r.in(1,3):r.in(1,std::max(1u,g.m()/ (r.chance(1,3)?1:4)));
		if(r.chance(1,20)) nu=0;
		for(unsigned i=0;i<nu;++i){
			unsigned a=r.below(g.m()); uint64_t w=g.weight[a];
			switch(r.below(8)){
				case 0: w=INF; break; case 1: w=0; break; case 2: w=r.in(0,wmax); break; case 3: w=w+1; break; case 4: w=w?w-1:0; break; case 5: w=w*2; break; case 6: w=w/2; break; default: w=r.below(10); }
			if(w>INF) w=INF;
			g.weight[a]=w; upd.push_back(a); if(r.chance(1,5)) upd.push_back(a); c.desc+=fmt(" %u:=%llu",a,(unsigned long long)w);
		}
		if(r.chance(1,6) && g.m()) upd.push_back(r.below(g.m())); // unchanged arc reported
		r.shuffle(upd);
		if(r.chance(1,10)){ part.update_arc(r.below(g.m())); part.reset(); c.count("queue resets"); }
		for(unsigned a:upd) part.update_arc(a);
		part.customize(m);
		full.customize();
		c.count("partial customizations"); c.count("arc updates",upd.size());
		// every answer equals that of the full customization and the truth
		Ref R(g); unsigned nq = g.n<=8 ? g.n*g.n : 14; uint64_t om=offset_limit(g);
		for(unsigned i=0;i<nq;++i){
			Ends S,T; if(g.n<=8){ S={{i/g.n,0}}; T={{i%g.n,0}}; } else { S=random_ends(r,g,r.chance(1,4)?4:1,r.chance(1,2)?0:om); T=random_ends(r,g,r.chance(1,4)?4:1,0); }
			q.reset(); fq.reset();
			if(ref_point_query(c,R,q,S,T,"after partial customization")) nt=true;
			if(r.chance(1,2)) check_paths(c,g,q,S,T,best_to(R.from(S),T),"after partial customization");
			if(r.chance(1,4)){ ref_point_query(c,R,fq,S,T,"after full customization"); }
			c.count("queries");
		}
		if(r.chance(1,5)){ // weights replaced as a whole from another vector in between
			m.reset(g.weight); m.customize(); c.count("full customizations in between"); }
		if(k%8==0) beat();
	}
	if(nt) c.nontrivial(g.hash());
	if(g.m()>8) c.sample(c.desc);
}
