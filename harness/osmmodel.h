// Random OSM road networks and an independent model of what the routing graph must contain.
#pragma once
#include "vh.h"
#include "pbf.h"
#include <cmath>
#include <set>
namespace osmm{
using vh::Rng; using pbf::Elem; using pbf::Tags; using pbf::Member;

inline double dist(double la, double lo, double lb, double lp){
	const long double D=3.14159265358979323846264338327950288L/180, R=6371000.785L;
	long double a=la*D,b=lo*D,c=lb*D,d=lp*D;
	long double x=cosl(a)*cosl(b)-cosl(c)*cosl(d), y=cosl(a)*sinl(b)-cosl(c)*sinl(d), z=sinl(a)-sinl(c);
	long double h=sqrtl(x*x+y*y+z*z)/2; if(h>1) h=1;
	return 2*R*asinl(h);
}

struct Net{
	std::vector<Elem> nodes, ways, relations;
	std::map<int64_t,size_t> node_at;
	std::vector<Elem> file_order(Rng&r, bool sorted)const{
		std::vector<Elem> e(nodes); e.insert(e.end(),ways.begin(),ways.end()); e.insert(e.end(),relations.begin(),relations.end());
		if(!sorted) r.shuffle(e);
		return e;
	}
};

// a jittered grid with walks over it: crossings, loops, repeated nodes, closed ways, short and empty ways
inline Net make_net(Rng&r, unsigned max_side, double spread, double base_lat, double base_lon, bool aligned, bool huge_ids=false){
	Net n; unsigned w=1+r.below(max_side), h=1+r.below(max_side);
	if(max_side>100){ w=r.in(max_side*3/4,max_side); h=r.in(max_side*3/4,max_side); }
	std::set<int64_t> used; std::vector<int64_t> id(w*h);
	int64_t range=r.pick({100ll,5000ll,300000ll,3000000ll});
	if(range<(int64_t)(w*h)*2) range=w*h*4;
	if(huge_ids) range=(1ll<<32)+(1ll<<30);
	for(auto&x:id){ do x=(int64_t)r.below(range); while(!used.insert(x).second); }
	for(unsigned y=0;y<h;++y) for(unsigned x=0;x<w;++x){
		Elem e; e.kind=0; e.id=id[y*w+x]; double j=aligned?0.05:0.4;
		double la=base_lat+spread*(y+r.real(-j,j)), lo=base_lon+spread*(x+r.real(-j,j));
		if(r.chance(1,60) && !n.nodes.empty()){ la=n.nodes.back().lat*1e-9; lo=n.nodes.back().lon*1e-9; }
		if(la>89.9) la=89.9;
		if(la<-89.9) la=-89.9;
		if(lo>179.9) lo=179.9;
		if(lo<-179.9) lo=-179.9;
		e.lat=(int64_t)llround(la*1e7)*100; e.lon=(int64_t)llround(lo*1e7)*100;
		if(r.chance(1,5)) e.tags.push_back({"poi",r.chance(1,2)?"stop":"other"});
		n.node_at[e.id]=n.nodes.size(); n.nodes.push_back(e);
	}
	unsigned wc=r.below(2+w*h/2); std::set<int64_t> wid; int64_t wrange=r.pick({200ll,20000ll,2000000ll}); if(wrange<(int64_t)wc*2+4) wrange=wc*4+8;
	for(unsigned i=0;i<wc;++i){
		Elem e; e.kind=1; do e.id=(int64_t)r.below(wrange); while(!wid.insert(e.id).second);
		int x=r.below(w), y=r.below(h); unsigned len=r.chance(1,12)?r.below(2):2+r.below(r.chance(1,4)?20:6); int dx=0,dy=0;
		if(r.chance(1,2)){ dx=r.chance(1,2)?1:-1; } else dy=r.chance(1,2)?1:-1;
		for(unsigned k=0;k<len;++k){
			e.refs.push_back(id[y*w+x]);
			if(r.chance(1,40)) e.refs.push_back(id[y*w+x]);
			if(r.chance(1,4)){ int t=dx; dx=dy; dy=t; if(r.chance(1,2)){ dx=-dx; dy=-dy; } }
			int nx=x+dx, ny=y+dy;
			if(nx<0||nx>=(int)w||ny<0||ny>=(int)h){ dx=-dx; dy=-dy; int t=dx; dx=dy; dy=t; nx=x+dx; ny=y+dy; if(nx<0||nx>=(int)w||ny<0||ny>=(int)h){ dx=-dx; dy=-dy; nx=x+dx; ny=y+dy; } if(nx<0||nx>=(int)w||ny<0||ny>=(int)h) break; }
			x=nx; y=ny;
		}
		if(e.refs.size()>2 && r.chance(1,10)) e.refs.push_back(e.refs[0]);
		n.ways.push_back(e);
	}
	return n;
}

struct MArc{ unsigned tail, head, way; bool anti; double dist, dist2; std::vector<std::pair<float,float>> geom; unsigned seg; };
struct Model{
	std::set<int64_t> modelling, routing, routing_way;
	std::vector<int64_t> routing_list, way_list;      // local -> global
	std::map<int64_t,unsigned> routing_local, way_local;
	std::vector<MArc> arcs;
};

// direction: 0 both 1 forward 2 backward 3 closed
inline Model build_model(const Net&n, const std::function<bool(const Elem&)>&selected, const std::function<bool(const Elem&)>&wanted_node, bool all_routing, const std::function<int(const Elem&)>&direction){
	Model m; std::map<int64_t,unsigned> uses;
	for(auto&w:n.ways) if(w.refs.size()>=2 && selected(w)){
		m.routing_way.insert(w.id);
		for(auto x:w.refs) ++uses[x];
		m.routing.insert(w.refs.front()); m.routing.insert(w.refs.back());
	}
	for(auto&x:uses){ m.modelling.insert(x.first); if(x.second>1||all_routing) m.routing.insert(x.first); }
	if(wanted_node) for(auto&x:n.nodes) if(wanted_node(x)){ m.modelling.insert(x.id); m.routing.insert(x.id); }
	for(auto x:m.routing){ m.routing_local[x]=m.routing_list.size(); m.routing_list.push_back(x); }
	for(auto x:m.routing_way){ m.way_local[x]=m.way_list.size(); m.way_list.push_back(x); }
	for(auto&w:n.ways) if(m.routing_way.count(w.id)){
		int d=direction(w); if(d==3) continue;
		size_t last=0;
		for(size_t i=1;i<w.refs.size();++i) if(m.routing.count(w.refs[i])){
			MArc a; a.tail=m.routing_local[w.refs[last]]; a.head=m.routing_local[w.refs[i]]; a.way=m.way_local[w.id]; a.anti=false; a.dist=a.dist2=0; a.seg=i-last;
			for(size_t k=last+1;k<=i;++k){
				auto&p=n.nodes[n.node_at.at(w.refs[k-1])]; auto&q=n.nodes[n.node_at.at(w.refs[k])];
				a.dist+=dist((float)(p.lat*1e-9),(float)(p.lon*1e-9),(float)(q.lat*1e-9),(float)(q.lon*1e-9));
				a.dist2+=dist(p.lat*1e-9,p.lon*1e-9,q.lat*1e-9,q.lon*1e-9);
				if(k<i) a.geom.push_back({(float)(q.lat*1e-9),(float)(q.lon*1e-9)});
			}
			if(d==0||d==1) m.arcs.push_back(a);
			if(d==0||d==2){ std::swap(a.tail,a.head); a.anti=true; std::reverse(a.geom.begin(),a.geom.end()); m.arcs.push_back(a); }
			last=i;
		}
	}
	return m;
}

inline bool close_coord(float a, float b){ return std::fabs(a-b)<=2e-5f; }
inline bool geom_close(const std::vector<std::pair<float,float>>&a, const std::vector<std::pair<float,float>>&b){
	if(a.size()!=b.size()) return false;
	for(size_t i=0;i<a.size();++i) if(!close_coord(a[i].first,b[i].first)||!close_coord(a[i].second,b[i].second)) return false;
	return true;
}
inline bool dist_ok(double real, const MArc&a){
	// whole meters are truncated; acos noise per segment
	auto near=[&](double want){ double noise=0.02+1e-6*want+0.25*a.seg; return real<=want+noise && real>=want-1-noise; };
	return near(a.dist)||near(a.dist2);
}
// 0 no geometry wanted, 1 uncompressed, 2 first and last
inline std::vector<std::pair<float,float>> expected_geom(const MArc&a, int mode){
	if(mode==1||a.geom.size()<=2) return a.geom;
	return {a.geom.front(),a.geom.back()};
}
}
