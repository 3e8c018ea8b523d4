// Graph generators and independent reference algorithms (64 bit arithmetic, no library code).
#pragma once
#include "vh.h"
#include <queue>
namespace gen{
using vh::Rng;
static const unsigned INF = 2147483647u;
static const uint64_t INF64 = ~0ull>>1;

struct Graph{
	unsigned n=0;
	std::vector<unsigned> tail, head, weight;
	std::vector<float> lat, lon;
	std::string kind;
	unsigned m()const{ return tail.size(); }
	uint64_t hash()const{ return vh::hvec(weight, vh::hvec(head, vh::hvec(tail, n))); }
	std::string show()const{
		return vh::fmt("%s n=%u m=%u ", kind.c_str(), n, m())+"tail="+vh::show(tail,40)+" head="+vh::show(head,40)+" weight="+vh::show(weight,40);
	}
	void add(unsigned x, unsigned y){ tail.push_back(x); head.push_back(y); }
};

struct Opt{
	bool allow_inf=false;      // individual arcs may have weight INF
	bool allow_huge=false;     // weights so large that whole paths may exceed INF
	bool coords=false;
	unsigned size_class=1;     // 0 tiny, 1 mixed, 2 medium, 3 more than 2^16 nodes or arcs
	bool allow_empty=true;     // no arcs
	bool allow_dense=false;    // large graphs may be nearly complete (contraction needs cubic time there)
	bool allow_hub=false;      // large graphs may have a node of degree above 2^16 (contraction needs quadratic time there)
};

inline void relabel(Rng&r, Graph&g){
	std::vector<unsigned>p(g.n); for(unsigned i=0;i<g.n;++i) p[i]=i; r.shuffle(p);
	for(auto&x:g.tail) x=p[x];
	for(auto&x:g.head) x=p[x];
	if(!g.lat.empty()){
		auto la=g.lat, lo=g.lon;
		for(unsigned i=0;i<g.n;++i){ g.lat[p[i]]=la[i]; g.lon[p[i]]=lo[i]; }
	}
	std::vector<unsigned>q(g.m()); for(unsigned i=0;i<g.m();++i) q[i]=i; r.shuffle(q);
	auto t=g.tail, h=g.head;
	for(unsigned i=0;i<g.m();++i){ g.tail[i]=t[q[i]]; g.head[i]=h[q[i]]; }
}

inline void weights(Rng&r, Graph&g, const Opt&o){
	unsigned m=g.m(); g.weight.assign(m,0);
	unsigned mode=r.below(8);
	unsigned lim=(INF-2)/(g.n+4);
	for(unsigned i=0;i<m;++i){
		switch(mode){
			case 0: g.weight[i]=r.in(0,2); break;                       // ties and zeros
			case 1: g.weight[i]=1; break;                                // unit
			case 2: g.weight[i]=r.in(1,10); break;
			case 3: g.weight[i]=r.in(1,1000); break;
			case 4: g.weight[i]=r.in(0,std::min(lim,100000u)); break;
			case 5: g.weight[i]=r.in(lim/2,lim); break;                  // large
			case 6: g.weight[i]=r.chance(1,3)?0:r.in(1,5); break;        // many zeros
			case 7: g.weight[i]=r.chance(1,6)?r.in(100,1000):r.in(1,4); break;
		}
	}
	if(o.allow_inf && r.chance(1,3)) { unsigned den=r.in(2,6); for(auto&w:g.weight) if(r.chance(1,den)) w=INF; }
	if(o.allow_huge && r.chance(1,6)) for(auto&w:g.weight) if(r.chance(1,3)) w=INF-r.below(r.chance(1,2)?4:INF/2);
}

inline Graph graph(Rng&r, const Opt&o=Opt()){
	Graph g;
	unsigned k;
	if(o.size_class==0) k=r.below(4);
	else if(o.size_class==1) k=r.below(12);
	else if(o.size_class==2) k=8+r.below(4);
	else k=r.chance(1,2)?8:(o.allow_hub?100:101)+r.below(o.allow_hub?4:3);
	if(o.size_class==3 && o.allow_dense && r.chance(1,4)) k=104;
	switch(k){
	case 104: { g.kind="dense"; g.n=r.in(380,480); for(unsigned i=0;i<g.n;++i) for(unsigned j=0;j<g.n;++j) if(i!=j&&r.chance(8,10)) g.add(i,j); break; }
	case 100: { g.kind="hub"; g.n=65540+r.below(3000); for(unsigned i=1;i<g.n;++i){ if(r.chance(29,30)) g.add(0,i); if(r.chance(29,30)) g.add(i,0); if(i>1&&r.chance(1,50)) g.add(i-1,i); } break; }
	case 101: { g.kind="long path"; g.n=65540+r.below(6000); for(unsigned i=1;i<g.n;++i){ g.add(i-1,i); if(r.chance(3,4)) g.add(i,i-1); if(i>1&&r.chance(1,20)) g.add(i-2,i); } break; }
	case 102: { g.kind="big tree"; g.n=65540+r.below(9000); unsigned width=r.pick({3u,100u,100000u}); for(unsigned i=1;i<g.n;++i){ unsigned p=i-1-r.below(std::min(i,width)); g.add(p,i); g.add(i,p);} break; }
	case 103: { g.kind="many parallel arcs"; g.n=r.in(2,40); unsigned m=65540+r.below(9000); for(unsigned i=0;i<m;++i) g.add(r.below(g.n), r.below(g.n)); break; }
	case 0: case 1: { g.kind="tiny"; g.n=r.in(1,7); unsigned m=r.below(4*g.n+1); for(unsigned i=0;i<m;++i) g.add(r.below(g.n), r.below(g.n)); break; }
	case 2: { g.kind="small"; g.n=r.in(2,14); unsigned m=r.in(g.n,5*g.n); for(unsigned i=0;i<m;++i) g.add(r.below(g.n), r.below(g.n)); break; }
	case 3: { // structured tiny
		unsigned s=r.below(6); g.n=r.in(2,12);
		if(s==0){ g.kind="path"; for(unsigned i=1;i<g.n;++i){ g.add(i-1,i); if(r.chance(3,4)) g.add(i,i-1);} }
		else if(s==1){ g.kind="cycle"; for(unsigned i=0;i<g.n;++i){ g.add(i,(i+1)%g.n); if(r.chance(1,3)) g.add((i+1)%g.n,i);} }
		else if(s==2){ g.kind="star"; for(unsigned i=1;i<g.n;++i){ if(r.chance(4,5)) g.add(0,i); if(r.chance(4,5)) g.add(i,0);} }
		else if(s==3){ g.kind="complete"; g.n=std::min(g.n,9u); for(unsigned i=0;i<g.n;++i) for(unsigned j=0;j<g.n;++j) if(i!=j) g.add(i,j); }
		else if(s==4){ g.kind="tree"; for(unsigned i=1;i<g.n;++i){ unsigned p=r.below(i); g.add(p,i); g.add(i,p);} }
		else { g.kind="bipartite"; for(unsigned i=0;i<g.n*3;++i){ unsigned a=r.below((g.n+1)/2), b=(g.n+1)/2+r.below(std::max(1u,g.n/2)); if(b<g.n){ if(r.chance(1,2)) g.add(a,b); else g.add(b,a);} } }
		break; }
	case 4: { g.kind="random"; g.n=r.in(10,80); unsigned m=r.in(g.n,4*g.n); for(unsigned i=0;i<m;++i) g.add(r.below(g.n), r.below(g.n)); break; }
	case 5: { g.kind="clusters"; unsigned c=r.in(2,5), s=r.in(2,15); g.n=c*s; for(unsigned i=0;i<c;++i) for(unsigned j=0;j<3*s;++j) g.add(i*s+r.below(s), i*s+r.below(s)); unsigned b=r.below(4); for(unsigned i=0;i<b;++i) g.add(r.below(g.n), r.below(g.n)); break; }
	case 6: { g.kind="multi"; g.n=r.in(3,30); unsigned m=r.in(g.n,2*g.n); for(unsigned i=0;i<m;++i){ unsigned a=r.below(g.n), b=r.below(g.n); unsigned q=r.in(1,4); for(unsigned j=0;j<q;++j){ if(r.chance(1,4)) g.add(b,a); else g.add(a,b);} if(r.chance(1,5)) g.add(a,a);} break; }
	case 7: { g.kind="ladder"; unsigned l=r.in(5,60); g.n=2*l; for(unsigned i=0;i<l;++i){ g.add(2*i,2*i+1); if(r.chance(2,3)) g.add(2*i+1,2*i); if(i){ g.add(2*i-2,2*i); g.add(2*i+1,2*i-1); if(r.chance(1,3)) g.add(2*i-1,2*i+1);} } break; }
	default: { // road like grid
		unsigned w,h;
		if(o.size_class==3){ if(r.chance(1,2)){ w=r.in(70,110); h=r.in(70,110); } /* large search spaces */ else { w=r.in(3,10); h=65600/w+1+r.below(20); } } else if(o.size_class==2){ w=r.in(10,32); h=r.in(10,32);} else { w=r.in(3,12); h=r.in(3,12); }
		g.kind="grid"; g.n=w*h;
		g.lat.resize(g.n); g.lon.resize(g.n);
		for(unsigned y=0;y<h;++y) for(unsigned x=0;x<w;++x){ g.lat[y*w+x]=48+0.01*y+r.real(0,0.004); g.lon[y*w+x]=8+0.01*x+r.real(0,0.004); }
		unsigned keep=o.size_class==3&&w>30?r.in(90,100):r.in(60,100), oneway=r.below(40);
		auto road=[&](unsigned a, unsigned b){ if(!r.chance(keep,100)) return; if(r.chance(oneway,100)){ if(r.chance(1,2)) g.add(a,b); else g.add(b,a);} else { g.add(a,b); g.add(b,a);} };
		for(unsigned y=0;y<h;++y) for(unsigned x=0;x<w;++x){ if(x+1<w) road(y*w+x,y*w+x+1); if(y+1<h) road(y*w+x,(y+1)*w+x); if(x+1<w&&y+1<h&&r.chance(1,10)) road(y*w+x,(y+1)*w+x+1); }
		unsigned far=r.below(4); for(unsigned i=0;i<far;++i) g.add(r.below(g.n), r.below(g.n));
		if(o.size_class<3 && r.chance(1,3)) for(unsigned i=0;i<g.n/10+1;++i) g.add(r.below(g.n), r.below(g.n));
		break; }
	}
	if(o.size_class<=1 && g.n>1 && r.chance(1,20)){ // bundles of parallel arcs
		g.kind+=" with bundles"; for(unsigned i=r.in(1,3);i;--i){ unsigned x=r.below(g.n), y=r.below(g.n); for(unsigned q=r.chance(1,4)?r.in(100,400):r.in(5,70);q;--q){ if(r.chance(1,6)) g.add(y,x); else g.add(x,y); } }
	}
	if(o.size_class==1 && g.n>1 && r.chance(1,40)){ // a node of high degree
		g.kind+=" with hub"; unsigned hub=r.below(g.n), extra=o.allow_hub?r.in(30,350):r.in(20,100), base=g.n; g.n+=extra; if(!g.lat.empty()){ g.lat.resize(g.n,48); g.lon.resize(g.n,8); }
		for(unsigned i=0;i<extra;++i){ if(r.chance(5,6)) g.add(hub,base+i); if(r.chance(5,6)) g.add(base+i,hub); if(i&&r.chance(1,8)) g.add(base+i-1,base+i); }
	}
	if(g.lat.empty() || r.chance(1,12)){
		g.lat.assign(g.n,0); g.lon.assign(g.n,0);
		unsigned cm=r.below(5);
		for(unsigned i=0;i<g.n;++i){
			if(cm==0){ g.lat[i]=0; g.lon[i]=0; }
			else if(cm==1){ g.lat[i]=r.real(-90,90); g.lon[i]=r.real(-180,180); }
			else if(cm==2){ g.lat[i]=i*0.01; g.lon[i]=0; }
			else { g.lat[i]=r.below(4); g.lon[i]=r.below(4); }
		}
	}
	if(r.chance(4,5)) relabel(r,g);
	if(!o.allow_empty && g.m()==0) g.add(0,g.n-1);
	weights(r,g,o);
	return g;
}

struct Adj{
	std::vector<std::vector<std::pair<unsigned,unsigned>>> out; // (head, arc)
	explicit Adj(const Graph&g):out(g.n){ for(unsigned a=0;a<g.m();++a) out[g.tail[a]].push_back({g.head[a],a}); }
};

// independent multi-source Dijkstra, 64 bit; arcs with weight >= INF are impassable
inline std::vector<uint64_t> dists(const Graph&g, const Adj&adj, const std::vector<std::pair<unsigned,uint64_t>>&src){
	std::vector<uint64_t>d(g.n, INF64);
	typedef std::pair<uint64_t,unsigned> QE;
	std::priority_queue<QE,std::vector<QE>,std::greater<QE>>q;
	for(auto&s:src) if(s.second<d[s.first]){ d[s.first]=s.second; q.push({s.second,s.first}); }
	while(!q.empty()){
		auto e=q.top(); q.pop();
		if(e.first!=d[e.second]) continue;
		for(auto&x:adj.out[e.second]){
			unsigned w=g.weight[x.second]; if(w>=INF) continue;
			uint64_t nd=e.first+w;
			if(nd<d[x.first]){ d[x.first]=nd; q.push({nd,x.first}); }
		}
	}
	return d;
}
inline std::vector<uint64_t> dists(const Graph&g, const Adj&adj, unsigned s){ return dists(g,adj,{{s,0}}); }
inline Graph reversed(const Graph&g){ Graph r=g; std::swap(r.tail,r.head); return r; }
inline unsigned clampd(uint64_t d){ return d>=INF ? INF : (unsigned)d; }

inline std::vector<unsigned> random_order(Rng&r, unsigned n){ std::vector<unsigned>p(n); for(unsigned i=0;i<n;++i)p[i]=i; r.shuffle(p); return p; }

// checks that arc path is a walk from s to t with total weight; returns total
inline uint64_t check_walk(const Graph&g, const std::vector<unsigned>&arcs, unsigned s, unsigned t, const char*what){
	unsigned x=s; uint64_t sum=0;
	for(unsigned a:arcs){
		VH_REQUIRE(a<g.m(), "%s: arc id %u out of range", what, a);
		VH_REQUIRE(g.tail[a]==x, "%s: arc %u starts at %u instead of %u", what, a, g.tail[a], x);
		sum+=g.weight[a]; x=g.head[a];
	}
	VH_REQUIRE(x==t, "%s: walk ends at %u instead of %u", what, x, t);
	return sum;
}
inline void check_node_path(const Graph&g, const std::vector<unsigned>&arcs, const std::vector<unsigned>&nodes, unsigned s, const char*what){
	VH_REQUIRE(nodes.size()==arcs.size()+1, "%s: node path has %zu nodes for %zu arcs", what, nodes.size(), arcs.size());
	VH_REQUIRE(nodes[0]==s, "%s: node path starts at %u instead of %u", what, nodes[0], s);
	for(size_t i=0;i<arcs.size();++i) VH_REQUIRE(nodes[i+1]==g.head[arcs[i]], "%s: node path position %zu is %u instead of %u", what, i+1, nodes[i+1], g.head[arcs[i]]);
}
// CSR
struct Csr{ std::vector<unsigned> first_out, tail, head, weight, orig; };
inline Csr csr(const Graph&g){
	Csr c; c.orig.resize(g.m()); for(unsigned i=0;i<g.m();++i) c.orig[i]=i;
	std::stable_sort(c.orig.begin(), c.orig.end(), [&](unsigned a, unsigned b){ return g.tail[a]<g.tail[b]; });
	c.first_out.assign(g.n+1,0);
	for(unsigned a=0;a<g.m();++a) ++c.first_out[g.tail[a]+1];
	for(unsigned i=0;i<g.n;++i) c.first_out[i+1]+=c.first_out[i];
	for(unsigned a:c.orig){ c.tail.push_back(g.tail[a]); c.head.push_back(g.head[a]); c.weight.push_back(g.weight[a]); }
	return c;
}
// A long chain from ends.first to ends.second and a node order whose shortcuts are nested as deeply as the chain is long.
// adds chains which contribute exactly f forward and b backward arcs and no shortcuts when they are contracted last and in this order
inline void add_chains(Graph&g, unsigned f, unsigned b, std::vector<unsigned>&order){
	unsigned base=g.n; g.n+=f+b+2; g.lat.resize(g.n,0); g.lon.resize(g.n,0); for(unsigned i=base;i<g.n;++i) order.push_back(i); g.kind+=" with chains";
	for(unsigned i=0;i<f;++i){ g.add(base+i,base+i+1); g.weight.push_back(1+i%7); }          // the lower end point of each arc is its tail
	for(unsigned i=0;i<b;++i){ g.add(base+f+2+i,base+f+1+i); g.weight.push_back(1+i%5); }
}
inline Graph long_chain(Rng&r, unsigned n, std::vector<unsigned>&order, std::pair<unsigned,unsigned>&ends){
	Graph g; g.n=n; g.kind="long chain"; std::vector<unsigned> id(n); for(unsigned i=0;i<n;++i) id[i]=i; if(r.chance(1,2)) r.shuffle(id);
	bool back=r.chance(1,2); auto add=[&](unsigned x, unsigned y){ g.add(x,y); g.weight.push_back(1+r.below(20)); };
	for(unsigned i=0;i+1<n;++i){ add(id[i],id[i+1]); if(back) add(id[i+1],id[i]); }
	ends={id[0],id[n-1]}; if(r.chance(1,2)) std::reverse(id.begin(),id.end());
	order.assign(id.begin()+1,id.end()); order.push_back(id[0]); return g;
}
} // namespace gen
