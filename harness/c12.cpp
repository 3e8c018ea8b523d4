// C12: rebinding of queries, metrics, partial customizations, parallelizations and Dijkstra objects
#include "cchutil.h"
#include <routingkit/dijkstra.h>
#include <memory>
#include <new>
using namespace RoutingKit; using namespace gen; using namespace vh;

// storage in which objects are default constructed over arbitrary old content
template<class T> struct Slot{
	alignas(T) unsigned char mem[sizeof(T)]; bool live=false;
	T&get(){ return *reinterpret_cast<T*>(mem); }
	void kill(){ if(live){ get().~T(); live=false; } }
	~Slot(){ kill(); }
	T&fresh(Rng&r){ // default construct on top of whatever was there
		kill(); if(r.chance(1,3)) memset(mem, r.below(256), sizeof mem);
		new(mem) T; live=true; return get(); }
	template<class... A> T&make(A&&...a){ kill(); new(mem) T(std::forward<A>(a)...); live=true; return get(); }
};
static std::vector<Graph> pool(Case&c, bool huge){
	Rng&r=c.rng; unsigned k=r.in(2,4); std::vector<Graph>p;
	for(unsigned i=0;i<k;++i){
		Opt o; o.size_class=r.chance(1,2)?0:1; o.allow_inf=true; o.allow_huge=huge; o.allow_empty=false;
		Graph g;
		if(i && r.chance(1,3)){ // same node (and maybe arc) count, other structure
			g=r.pick(p); if(r.chance(1,2)) relabel(r,g); else for(auto&h:g.head) if(r.chance(1,2)) h=r.below(g.n);
			weights(r,g,o);
		}else g=graph(r,o);
		c.desc+=" #"+g.show(); p.push_back(g);
	}
	return p;
}
static void ch_case(Case&c){
	Rng&r=c.rng; auto gs=pool(c,false);
	std::vector<std::unique_ptr<ContractionHierarchy>>ch; std::vector<std::unique_ptr<Ref>>R;
	for(auto&g:gs){
		auto x=build_ch(c,g); R.emplace_back(new Ref(g));
		unsigned how=r.below(4);
		if(how==0){ std::unique_ptr<ContractionHierarchy>tmp(new ContractionHierarchy(x)); ch.emplace_back(new ContractionHierarchy(*tmp)); }
		else if(how==1){ ch.emplace_back(new ContractionHierarchy); *ch.back()=x; x=ContractionHierarchy(); }
		else if(how==2){ ch.emplace_back(new ContractionHierarchy); *ch.back()=std::move(x); }
		else ch.emplace_back(new ContractionHierarchy(std::move(x)));
	}
	Slot<ContractionHierarchyQuery> slot; unsigned cur=r.below(gs.size());
	if(r.chance(1,2)) slot.make(*ch[cur]); else slot.fresh(r).reset(*ch[cur]);
	for(unsigned i=0,n=r.in(4,14);i<n;++i){
		c.desc+=fmt(" >on %u",cur); episode(c,*R[cur],slot.get(),offset_limit(gs[cur]));
		cur=r.below(gs.size());
		unsigned k=r.below(7); c.desc+=fmt(" >rebind%u",k);
		if(k==0) slot.fresh(r).reset(*ch[cur]);
		else if(k==1){ ContractionHierarchyQuery q2(slot.get()); slot.get()=ContractionHierarchyQuery(); slot.get()=q2; slot.get().reset(*ch[cur]); c.count("copied"); }
		else if(k==2){ ContractionHierarchyQuery q2(std::move(slot.get())); slot.make(std::move(q2)); slot.get().reset(*ch[cur]); c.count("moved"); }
		else if(k==3){ slot.get()=ContractionHierarchyQuery(*ch[cur]); }
		else if(k==4){ // hierarchy replaced in place
			std::vector<unsigned> unused; Graph ng=gs[cur]; new_weights(r,ng); for(auto&w:ng.weight) w=std::min<unsigned>(w,w>=INF?INF:(INF-2)/(ng.n+4));
			if(r.chance(1,2)){ unsigned add=r.in(1,5); for(unsigned z=0;z<add;++z){ ng.add(r.below(ng.n),ng.n); ng.add(ng.n,r.below(ng.n)); ng.weight.push_back(r.in(1,9)); ng.weight.push_back(r.in(1,9)); ++ng.n; } ng.lat.resize(ng.n); ng.lon.resize(ng.n); }
			gs[cur]=ng; c.desc+=" in place "+ng.show(); R[cur].reset(new Ref(ng)); *ch[cur]=build_ch(c,ng); slot.get().reset(*ch[cur]); c.count("index replaced in place"); }
		else slot.get().reset(*ch[cur]);
		c.count("rebindings CH"); beat();
		if(c.desc.size()>6000) c.desc.resize(6000);
	}
}
static void cch_case(Case&c){
	Rng&r=c.rng; auto gs=pool(c,true);
	typedef CustomizableContractionHierarchy CCH; typedef CustomizableContractionHierarchyMetric M; typedef CustomizableContractionHierarchyQuery Q;
	std::vector<std::unique_ptr<CCH>>cch;
	for(auto&g:gs){
		std::unique_ptr<CCH>x(new CCH(build_cch(c,g))); unsigned how=r.below(6);
		if(how==0){ cch.emplace_back(new CCH(*x)); x.reset(); c.count("CCH copied"); }                      // copy, original destroyed
		else if(how==1){ cch.emplace_back(new CCH); *cch.back()=*x; *x=CCH(); c.count("CCH copied"); }        // copy assigned, original cleared
		else if(how==2){ cch.emplace_back(new CCH(std::move(*x))); c.count("CCH moved"); }
		else if(how==3){ cch.emplace_back(new CCH); *cch.back()=std::move(*x); c.count("CCH moved"); }
		else if(how==4){ CCH y(gs[0].n?CCH({0},{},{}):CCH()); y=*x; x.reset(); cch.emplace_back(new CCH(std::move(y))); c.count("CCH copied"); }
		else cch.push_back(std::move(x));
	}
	// every slot: a metric, bound to some cch and some weight vector owned here
	struct MS{ Slot<M> m; unsigned on; std::unique_ptr<Graph> g; std::unique_ptr<Ref> R; };
	std::vector<std::unique_ptr<MS>>ms;
	CustomizableContractionHierarchyPartialCustomization part; CustomizableContractionHierarchyParallelization par;
	auto customize=[&](MS&s){
		if(r.chance(1,4)){ if(r.chance(1,2)) par.reset(*cch[s.on]); else par=CustomizableContractionHierarchyParallelization(*cch[s.on]); par.customize(s.m.get(), r.in(1,3)); c.count("parallel rebindings"); }
		else s.m.get().customize();
		s.R.reset(new Ref(*s.g));
	};
	auto rebind=[&](MS&s){
		unsigned k=r.below(5); unsigned old=s.on;
		s.on=r.below(gs.size());
		if(k==0) s.on=old;
		std::unique_ptr<Graph> ng(new Graph(gs[s.on])); if(r.chance(3,4)) new_weights(r,*ng);
		c.desc+=fmt(" >metric%u on %u w=",k,s.on)+show(ng->weight,20);
		if(k==0) { if(r.chance(1,2)) s.m.get().reset(ng->weight); else s.m.get().reset(ng->weight.data()); }
		else if(k==1) s.m.get().reset(*cch[s.on],ng->weight);
		else if(k==2) s.m.get().reset(*cch[s.on],ng->weight.data());
		else if(k==3) s.m.fresh(r).reset(*cch[s.on],ng->weight);
		else { s.m.get()=M(*cch[s.on],ng->weight); }
		s.g=std::move(ng);
		customize(s); c.count("metric rebindings");
	};
	unsigned k=r.in(2,4);
	for(unsigned i=0;i<k;++i){ ms.emplace_back(new MS); auto&s=*ms.back(); s.on=r.below(gs.size()); s.g.reset(new Graph(gs[s.on])); s.m.make(*cch[s.on],s.g->weight); customize(s); }
	Slot<Q> slot; unsigned cur=r.below(k);
	if(r.chance(1,2)) slot.make(ms[cur]->m.get()); else slot.fresh(r).reset(ms[cur]->m.get());
	for(unsigned i=0,n=r.in(4,12);i<n;++i){
		if(c.desc.size()>8000) c.desc.resize(8000);
		c.desc+=fmt(" >on metric %u",cur); episode(c,*ms[cur]->R,slot.get(),offset_limit(*ms[cur]->g));
		if(r.chance(1,3)){ // metric in use is rebound while the query has state; the query is then reset to it
			slot.get().reset(); rebind(*ms[r.below(k)]);
			if(r.chance(1,2)){ M copy(ms[cur]->m.get()); ms[cur]->m.get()=M(); ms[cur]->m.get()=copy; c.count("metric copied"); }
		}
		if(r.chance(1,4)){ // partial customization rebound to the hierarchy of this metric
			auto&s=*ms[cur]; if(r.chance(1,2)) part.reset(*cch[s.on]); else part=CustomizableContractionHierarchyPartialCustomization(*cch[s.on]);
			for(unsigned j=0,nu=r.in(1,4);j<nu;++j){ unsigned a=r.below(s.g->m()); s.g->weight[a]=r.chance(1,5)?INF:r.below(50); part.update_arc(a); c.desc+=fmt(" upd %u:=%u",a,s.g->weight[a]); }
			if(r.chance(1,5)){ auto p2=part; part=CustomizableContractionHierarchyPartialCustomization(); part=p2; }
			part.customize(s.m.get()); s.R.reset(new Ref(*s.g)); c.count("partial rebindings");
			if(r.chance(1,3)) part.update_arc(r.below(s.g->m())); // leftover that a rebinding must drop
		}
		if(r.chance(1,5)){ // reports that are dropped by a rebinding must leave the metric alone
			auto&s=*ms[cur]; part.reset(*cch[s.on]); unsigned a=r.below(s.g->m()), old=s.g->weight[a]; s.g->weight[a]=r.chance(1,3)?INF:r.below(60); part.update_arc(a);
			unsigned how=r.below(3); c.desc+=fmt(" >dropped report of %u:=%u how %u",a,s.g->weight[a],how);
			if(how==0){ part.reset(*cch[r.below(gs.size())]); part.reset(*cch[s.on]); } else if(how==1) part.reset(*cch[s.on]); else part.reset();
			part.customize(s.m.get()); c.count("dropped reports");
			for(unsigned j=0;j<4;++j){ slot.get().reset(s.m.get()); auto S=random_ends(r,*s.g,2,0),T=random_ends(r,*s.g,2,0); if(j==0&&s.g->m()){ S={{s.g->tail[a],0}}; T={{s.g->head[a],0}}; } ref_point_query(c,*s.R,slot.get(),S,T,"after dropped report"); }
			if(r.chance(1,2)){ part.update_arc(a); part.customize(s.m.get()); s.R.reset(new Ref(*s.g)); } else s.g->weight[a]=old;
			slot.get().reset(s.m.get());
		}
		if(r.chance(1,5)){ // hierarchy replaced in place; everything bound to it is rebound
			unsigned x=r.below(gs.size()); Graph ng;
			if(r.chance(1,2)){ ng=gs[x]; unsigned add=r.in(1,6); for(unsigned z=0;z<add;++z){ ng.add(r.below(ng.n),ng.n); ng.add(ng.n,r.below(ng.n)); ++ng.n; } ng.weight.resize(ng.m(),7); ng.lat.resize(ng.n); ng.lon.resize(ng.n); new_weights(r,ng); }
			else { Opt o; o.size_class=r.chance(1,2)?0:1; o.allow_inf=true; o.allow_huge=true; o.allow_empty=false; ng=graph(r,o); }
			c.desc+=fmt(" >index %u in place ",x)+ng.show(); slot.get().reset(); gs[x]=ng; *cch[x]=build_cch(c,ng);
			for(auto&s:ms) if(s->on==x){ s->g.reset(new Graph(ng)); if(r.chance(1,2)) s->m.get().reset(*cch[x],s->g->weight); else s->m.get().reset(*cch[x],s->g->weight.data()); customize(*s); }
			part.reset(*cch[r.chance(1,2)?x:r.below(gs.size())]); c.count("CCH replaced in place");
		}
		cur=r.below(k); unsigned kk=r.below(7); c.desc+=fmt(" >rebind%u",kk);
		Q&q=slot.get(); M&m=ms[cur]->m.get();
		if(kk==0) slot.fresh(r).reset(m);
		else if(kk==1){ Q q2(q); q=Q(m); q=q2; q.reset(m); c.count("copied"); }
		else if(kk==2){ Q q2(std::move(q)); slot.make(std::move(q2)); slot.get().reset(m); c.count("moved"); }
		else if(kk==3) q=Q(m);
		else q.reset(m);
		c.count("rebindings CCH"); beat();
	}
}
static void check(Case&c, const Graph&g, const Csr&s, Dijkstra&d, const char*what){
	Rng&r=c.rng; Graph g2=g; g2.tail=s.tail; g2.head=s.head; g2.weight=s.weight; Adj adj(g2); unsigned src=r.below(g.n), off=r.below(5);
	auto want=dists(g2,adj,{{src,off}}); d.add_source(src,off); ScalarGetWeight w(s.weight); unsigned lim=r.chance(1,3)?r.below(g.n):~0u, k=0; unsigned last=0;
	while(!d.is_finished()&&k<lim){ auto x=d.settle(w); ++k; VH_REQUIRE(x.distance==want[x.node]&&x.distance>=last, "%s: node %u settled with %u instead of %llu",what,x.node,x.distance,(unsigned long long)want[x.node]); last=x.distance;
		auto p=d.get_arc_path_to(x.node); VH_EQ(check_walk(g2,p,src,x.node,what)+off, (uint64_t)x.distance, "%s: path length",what); }
	if(d.is_finished()) for(unsigned x=0;x<g.n;++x) VH_REQUIRE(d.get_distance_to(x)==clampd(want[x]), "%s: distance to %u",what,x);
}
static void dijkstra_case(Case&c){
	Rng&r=c.rng; auto gs=pool(c,false); std::vector<std::unique_ptr<Csr>>s; for(auto&g:gs) s.emplace_back(new Csr(csr(g)));
	Slot<Dijkstra> slot; unsigned cur=r.below(gs.size());
	if(r.chance(1,2)) slot.make(s[cur]->first_out,s[cur]->tail,s[cur]->head); else slot.fresh(r).reset(s[cur]->first_out,s[cur]->tail,s[cur]->head);
	for(unsigned i=0,n=r.in(4,14);i<n;++i){
		c.desc+=fmt(" >on %u",cur); check(c,gs[cur],*s[cur],slot.get(),"rebound dijkstra");
		cur=r.below(gs.size()); unsigned k=r.below(7); c.desc+=fmt(" >rebind%u",k);
		if(k==0) slot.fresh(r);
		else if(k==1){ Dijkstra d2(slot.get()); slot.get()=Dijkstra(); slot.get()=d2; c.count("copied"); }
		else if(k==2){ Dijkstra d2(std::move(slot.get())); slot.make(std::move(d2)); c.count("moved"); }
		else if(k==3){ // vectors refilled in place with a graph of any size
			Opt o; o.size_class=r.chance(1,2)?0:1; o.allow_inf=true; o.allow_empty=false; gs[cur]=graph(r,o); *s[cur]=csr(gs[cur]); c.desc+=" refilled "+gs[cur].show(); c.count("graph refilled in place"); }
		slot.get().reset(s[cur]->first_out,s[cur]->tail,s[cur]->head);
		c.count("rebindings dijkstra");
		if(c.desc.size()>6000) c.desc.resize(6000);
	}
}
void vh_case(Case&c){
	unsigned k=c.idx%4; c.desc=fmt("kind %u",k); uint64_t h=c.rng.s;
	if(k==0) ch_case(c); else if(k==3) dijkstra_case(c); else cch_case(c);
	c.nontrivial(h+k); c.sample(c.desc.substr(0,1200));
}
