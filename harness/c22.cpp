// C22: geographic distance and nearest neighbour / radius queries
#include "gen.h"
#include <routingkit/geo_dist.h>
#include <routingkit/geo_position_to_node.h>
#include <cmath>
using namespace RoutingKit;
static bool finite_bits(double d){ uint64_t u; memcpy(&u,&d,8); return ((u>>52)&0x7ff)!=0x7ff; }
static bool finite_bits(float d){ uint32_t u; memcpy(&u,&d,4); return ((u>>23)&0xff)!=0xff; }
// independent: chord length with long double, numerically stable everywhere
static double ref(double la, double lo, double lb, double lp){
	const long double D=3.14159265358979323846264338327950288L/180, R=6371000.785L;
	long double a=la*D,b=lo*D,c=lb*D,d=lp*D;
	long double x=cosl(a)*cosl(b)-cosl(c)*cosl(d), y=cosl(a)*sinl(b)-cosl(c)*sinl(d), z=sinl(a)-sinl(c);
	long double h=sqrtl(x*x+y*y+z*z)/2; if(h>1) h=1;
	if(h<0.9L) return (double)(2*R*asinl(h));
	long double xs=cosl(a)*cosl(b)+cosl(c)*cosl(d), ys=cosl(a)*sinl(b)+cosl(c)*sinl(d), zs=sinl(a)+sinl(c);
	long double k=sqrtl(xs*xs+ys*ys+zs*zs)/2; if(k>1) k=1;
	return (double)(R*(3.14159265358979323846264338327950288L-2*asinl(k)));
}
struct Pt{ double lat, lon; };
static Pt some(vh::Rng&r){
	switch(r.below(8)){
	case 0: return Pt{r.real(-90,90),r.real(-180,180)};
	case 1: return Pt{r.pick({90.0,-90.0,89.9999,-89.9999,0.0}),r.real(-180,180)};
	case 2: return Pt{r.real(-90,90),r.pick({180.0,-180.0,179.99999,-179.99999,0.0})};
	case 3: return Pt{(double)((int)r.below(181)-90),(double)((int)r.below(361)-180)};
	case 4: return Pt{0,0};
	default: return Pt{(float)r.real(47,55),(float)r.real(5,15)};
	}
}
static void dist_case(vh::Case&c){
	auto&r=c.rng;
	for(unsigned i=0;i<60;++i){
		Pt a=some(r), b=some(r);
		if(r.chance(1,4)) b=a;
		else if(r.chance(1,2)){ double s=r.pick({1e-9,1e-7,1e-6,1e-5,1e-4,1e-3,1e-2}); b.lat=std::min(90.0,std::max(-90.0,a.lat+r.real(-s,s))); b.lon=std::min(180.0,std::max(-180.0,a.lon+r.real(-s,s))); }
		else if(r.chance(1,4)){ b.lat=-a.lat; b.lon=a.lon>0?a.lon-180:a.lon+180; if(r.chance(1,2)) b.lat=std::min(90.0,std::max(-90.0,b.lat+r.real(-1e-6,1e-6))); c.count("antipodal pairs"); }
		c.desc=vh::fmt("geo_dist(%.17g,%.17g,%.17g,%.17g)",a.lat,a.lon,b.lat,b.lon);
		double d=geo_dist(a.lat,a.lon,b.lat,b.lon), e=geo_dist(b.lat,b.lon,a.lat,a.lon), w=ref(a.lat,a.lon,b.lat,b.lon);
		VH_REQUIRE(finite_bits(d)&&finite_bits(e),"distance is not finite (expected %.9g)",w);
		VH_REQUIRE(d>=0,"distance %.17g is negative",d);
		// the inverse cosine amplifies rounding errors near identical and near antipodal points, and nowhere else
		double far=std::max(1e-3,std::min(w,20015089.2622-w)), tol=std::min(0.5,0.1/far)+1e-9*w;
		VH_REQUIRE(std::fabs(d-e)<tol,"not symmetric: %.17g vs %.17g",d,e);
		VH_REQUIRE(std::fabs(d-w)<tol,"distance %.9f instead of %.9f",d,w);
		if(tol<0.05) c.count("distances compared within five centimeters");
		VH_REQUIRE(d<=3.14159265359*6371001,"distance %.9g exceeds half the circumference",d);
		c.count("distances"); if(a.lat==b.lat&&a.lon==b.lon) c.count("identical points");
		if(w<1000) c.count("road scale distances");
	}
	c.nontrivial(c.rng.s);
}
static void index_case(vh::Case&c){
	auto&r=c.rng; unsigned n=r.pick({0u,1u,2u,(unsigned)r.in(3,8),9u,(unsigned)r.in(9,40),(unsigned)r.in(30,300),(unsigned)(c.is_rel()?r.in(300,4000):r.in(100,600))}); if(c.large(599)){ n=r.in(65530,140000); c.count("large indexes"); }
	std::vector<float>lat(n),lon(n); unsigned kind=r.below(11); double cla=r.real(-80,80), clo=r.real(-175,175);
	for(unsigned i=0;i<n;++i) switch(kind){
		case 0: lat[i]=r.real(-90,90); lon[i]=r.real(-180,180); break;
		case 1: case 2: lat[i]=cla+r.real(-0.5,0.5); lon[i]=clo+r.real(-0.5,0.5); break;      // region
		case 3: lat[i]=cla+r.real(-0.01,0.01); lon[i]=clo+r.real(-0.01,0.01); break;          // village
		case 9: case 10: { double e=kind==9?0.001:0.003; lat[i]=cla+r.real(-e,e); lon[i]=clo+r.real(-e,e); break; } // dense
		case 4: lat[i]=cla+0.001*r.below(6); lon[i]=clo+0.001*r.below(6); break;              // duplicates
		case 5: { double b=r.below(4); lat[i]=std::max(-90.0,std::min(90.0,cla+5*b+r.real(-0.02,0.02))); lon[i]=std::max(-180.0,std::min(180.0,clo-4*b+r.real(-0.02,0.02))); break; } // clusters
		case 6: lat[i]=std::min(90.0,89+r.real(0,1)); lon[i]=r.real(-180,180); break;          // pole
		case 8: { double e=r.pick({0.0,1e-5,1e-3,0.1}); lat[i]=cla+r.real(-e,e); lon[i]=clo+r.real(-e,e); if(r.chance(1,2)){ lat[i]=-lat[i]; lon[i]=lon[i]>0?lon[i]-180:lon[i]+180; } break; } // antipodal clusters
		default: lat[i]=cla+r.real(-1,1); lon[i]=r.chance(1,2)?179+r.real(0,1):-180+r.real(0,1); break; // date line
	}
	if(r.chance(1,8)&&n) for(unsigned i=0;i<n;++i){ lat[i]=lat[0]; lon[i]=lon[0]; }
	GeoPositionToNode idx(lat,lon); if(r.chance(1,4)){ GeoPositionToNode t; t=idx; idx=std::move(t); }
	VH_EQ(idx.point_count(),n,"point_count");
	for(unsigned q=0;q<15;++q){
		vh::beat();
		float la,lo,rad; unsigned m=r.below(4);
		if(n && m<2){ unsigned i=r.below(n); la=lat[i]; lo=lon[i]; if(m==1){ double e=kind>=9?0.0005:0.01; la=std::max(-90.0,std::min(90.0,la+r.real(-e,e))); lo=std::max(-180.0,std::min(180.0,lo+r.real(-e,e))); } }
		else { Pt p=m==2?some(r):Pt{cla+r.real(-1,1)*(kind>=9?0.002:1),clo+r.real(-1,1)*(kind>=9?0.002:1)}; la=p.lat; lo=p.lon; }
		la=std::max(-90.f,std::min(90.f,la)); lo=std::max(-180.f,std::min(180.f,lo));
		std::vector<double>d(n); double best=1e300; for(unsigned i=0;i<n;++i){ d[i]=ref(la,lo,lat[i],lon[i]); best=std::min(best,d[i]); }
		switch(r.below(6)){ case 0: rad=r.real(0.9,20); break; case 1: rad=r.real(50,3000); break; case 2: rad=1e5*r.real(); break; case 3: rad=n?d[r.below(n)]*r.real(0.9,1.1)+1:10; break; case 4: rad=2.1e7f; break; default: rad=n?(float)best+r.real(1,30):1000; }
		double mxd=0; for(unsigned i=0;i<n;++i) mxd=std::max(mxd,ref(lat[0],lon[0],lat[i],lon[i])); if(n) mxd=std::max(mxd,d[0]);
		// distances are single precision, and 0.1 m off at worst
		double tol=0.7+6e-7*mxd;
		c.desc=vh::fmt("n=%u kind=%u query %.9g,%.9g radius %.9g tol %.3g nearest true %.9g points %s / %s",n,kind,la,lo,rad,tol,best,n<40?vh::show(lat).c_str():"-",n<40?vh::show(lon).c_str():"-");
		auto nn=idx.find_nearest_neighbor_within_radius(la,lo,rad);
		if(nn.id==invalid_id){ VH_REQUIRE(best>rad-tol,"no neighbour reported although one is at %.6f within radius %.6f",best,rad); c.count("empty nearest neighbour answers"); }
		else{
			VH_REQUIRE(nn.id<n,"neighbour id %u",nn.id); VH_REQUIRE(finite_bits(nn.distance),"neighbour distance not finite");
			VH_REQUIRE(std::fabs(nn.distance-d[nn.id])<=0.6+2e-7*d[nn.id],"reported distance %.6f of neighbour %u is %.6f in truth",nn.distance,nn.id,d[nn.id]);
			VH_REQUIRE(d[nn.id]<=best+tol,"neighbour at %.6f although the nearest is at %.6f",d[nn.id],best);
			VH_REQUIRE(d[nn.id]<=rad+tol,"neighbour at %.6f outside of radius %.6f",d[nn.id],rad); c.count("neighbours found");
		}
		auto all=idx.find_all_nodes_within_radius(la,lo,rad); std::vector<char>seen(n,0);
		for(auto&x:all){ VH_REQUIRE(x.id<n,"radius result id %u",x.id); VH_REQUIRE(!seen[x.id],"point %u reported twice",x.id); seen[x.id]=1; VH_REQUIRE(finite_bits(x.distance)&&std::fabs(x.distance-d[x.id])<=0.6+2e-7*d[x.id],"reported distance %.6f of %u is %.6f in truth",x.distance,x.id,d[x.id]); VH_REQUIRE(d[x.id]<=rad+0.6+2e-7*d[x.id],"point %u at %.6f outside of radius %.6f",x.id,d[x.id],rad); }
		for(unsigned i=0;i<n;++i) if(!seen[i]) VH_REQUIRE(d[i]>rad-tol,"point %u at %.6f missing from the %.6f m radius result",i,d[i],rad);
		c.count("points in radius results",all.size()); c.count("index queries");
		if(n>8 && !all.empty()) c.nontrivial(vh::hcombine(c.idx,q));
	}
}
void vh_case(vh::Case&c){ if(c.idx%3==0) dist_case(c); else index_case(c); if(c.idx<3) c.sample(c.desc); }
