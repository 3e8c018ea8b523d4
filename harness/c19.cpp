// C19: sort, permutation, filter, min/max, inverse vector helpers
#include "gen.h"
#include <routingkit/sort.h>
#include <routingkit/permutation.h>
#include <routingkit/filter.h>
#include <routingkit/min_max.h>
#include <routingkit/inverse_vector.h>
#include <memory>
using namespace RoutingKit;
struct Item{ unsigned key=0; unsigned id=0; std::string s; };
static bool same(const Item&a, const Item&b){ return a.key==b.key&&a.id==b.id&&a.s==b.s; }
static bool same(unsigned a, unsigned b){ return a==b; }
static bool same(const std::string&a, const std::string&b){ return a==b; }
template<class T> static bool eq(const std::vector<T>&a, const std::vector<T>&b){ if(a.size()!=b.size()) return false; for(size_t i=0;i<a.size();++i) if(!same(a[i],b[i])) return false; return true; }
static bool is_perm(const std::vector<unsigned>&p, size_t n){ if(p.size()!=n) return false; std::vector<char>s(n,0); for(auto x:p){ if(x>=n||s[x]) return false; s[x]=1; } return true; }
// model: stable sorted positions by comparator
template<class T,class L> static std::vector<unsigned> model(const std::vector<T>&v, const L&less){ // insertion by merge: independent stable order
	std::vector<unsigned>p; for(unsigned i=0;i<v.size();++i) p.push_back(i);
	std::stable_sort(p.begin(),p.end(),[&](unsigned a, unsigned b){ if(less(v[a],v[b])) return true; if(less(v[b],v[a])) return false; return a<b; });
	return p;
}
template<class T,class L> static void check_sorted_perm(const std::vector<T>&v, const L&less, const std::vector<unsigned>&p, bool stable, const char*what){
	VH_REQUIRE(is_perm(p,v.size()), "%s: not a permutation", what);
	for(size_t i=1;i<p.size();++i){ VH_REQUIRE(!less(v[p[i]],v[p[i-1]]), "%s: not sorted at %zu", what, i); if(stable && !less(v[p[i-1]],v[p[i]])) VH_REQUIRE(p[i-1]<p[i], "%s: not stable at %zu", what, i); }
}
static std::vector<unsigned> inv(const std::vector<unsigned>&p){ std::vector<unsigned>r(p.size()); for(unsigned i=0;i<p.size();++i) r[p[i]]=i; return r; }
template<class T,class L> static void check_sorted_vec(const std::vector<T>&v, const L&less, const std::vector<T>&got, bool stable, const char*what){
	VH_EQ(got.size(), v.size(), "%s: size", what);
	auto p=model(v,less);
	for(size_t i=0;i<got.size();++i){ VH_REQUIRE(!less(got[i],v[p[i]])&&!less(v[p[i]],got[i]), "%s: wrong value at %zu", what, i); if(stable) VH_REQUIRE(same(got[i],v[p[i]]), "%s: not stable at %zu", what, i); }
}
template<class T> static void check_multiset(std::vector<T> a, std::vector<T> b, const char*what, bool (*lt)(const T&,const T&)){
	std::sort(a.begin(),a.end(),lt); std::sort(b.begin(),b.end(),lt); VH_REQUIRE(eq(a,b), "%s: elements changed", what);
}
static bool item_lt(const Item&a, const Item&b){ return a.id<b.id; }
static void sorting(vh::Case&c){
	auto&r=c.rng; unsigned n=r.pick({0u,1u,2u,(unsigned)r.below(20),(unsigned)r.below(200),(unsigned)r.below(600)}); const bool big=c.large(1199); if(big){ n=r.in(65530,90000); c.count("large sorts"); }
	unsigned kc; switch(r.below(5)){ case 0: kc=1+r.below(4); break; case 1: kc=1+r.below(n+2); break; case 2: kc=std::max(1,(int)(16*n)+(int)r.below(34)-17); break; case 3: kc=16*n+17+r.below(1000); break; default: kc=1+r.below(100000); }
	std::vector<Item>v(n); bool presorted=r.chance(1,6);
	for(unsigned i=0;i<n;++i){ v[i].key=r.chance(1,8)?kc-1:r.below(kc); v[i].id=i; v[i].s=std::to_string(v[i].key)+std::string(r.below(25),'x'); }
	if(presorted) std::sort(v.begin(),v.end(),[](const Item&a,const Item&b){return a.key<b.key;});
	c.desc=vh::fmt("sort n=%u key_count=%u",n,kc);
	if(n>=kc/16) c.count("dense key sorts"); else c.count("sparse key sorts");
	auto key=[](const Item&i){ return i.key; }; auto less=[](const Item&a, const Item&b){ return a.key<b.key; }; auto greater=[](const Item&a, const Item&b){ return a.key>b.key; };
	auto copy=v;
	check_sorted_perm(v,less,compute_sort_permutation_using_key(v,kc,key),false,"compute_sort_permutation_using_key");
	check_sorted_perm(v,less,compute_stable_sort_permutation_using_key(v,kc,key),true,"compute_stable_sort_permutation_using_key");
	auto ip=compute_inverse_sort_permutation_using_key(v,kc,key); VH_REQUIRE(is_perm(ip,n),"inverse key permutation is no permutation"); check_sorted_perm(v,less,inv(ip),false,"compute_inverse_sort_permutation_using_key");
	ip=compute_inverse_stable_sort_permutation_using_key(v,kc,key); VH_REQUIRE(is_perm(ip,n),"inverse key permutation is no permutation"); check_sorted_perm(v,less,inv(ip),true,"compute_inverse_stable_sort_permutation_using_key");
	for(int st=0;st<2;++st) for(int mv=0;mv<2;++mv){
		auto w=v; auto res= st? (mv?stable_sort_using_key(std::move(w),kc,key):stable_sort_using_key(w,kc,key)) : (mv?sort_using_key(std::move(w),kc,key):sort_using_key(w,kc,key));
		check_sorted_vec(v,less,res,st,"sort_using_key"); check_multiset<Item>(v,res,"sort_using_key",item_lt);
		auto w2=v; auto res2= st? (mv?stable_sort_using_comparator(std::move(w2),greater):stable_sort_using_comparator(w2,greater)) : (mv?sort_using_comparator(std::move(w2),greater):sort_using_comparator(w2,greater));
		check_sorted_vec(v,greater,res2,st,"sort_using_comparator"); check_multiset<Item>(v,res2,"sort_using_comparator",item_lt);
		VH_EQ(is_sorted_using_key(res,kc,key),true,"is_sorted_using_key"); VH_EQ(is_sorted_using_comparator(res2,greater),true,"is_sorted_using_comparator");
	}
	check_sorted_perm(v,greater,compute_sort_permutation_using_comparator(v,greater),false,"compute_sort_permutation_using_comparator");
	check_sorted_perm(v,greater,compute_stable_sort_permutation_using_comparator(v,greater),true,"compute_stable_sort_permutation_using_comparator");
	ip=compute_inverse_sort_permutation_using_comparator(v,greater); VH_REQUIRE(is_perm(ip,n),"inverse"); check_sorted_perm(v,greater,inv(ip),false,"compute_inverse_sort_permutation_using_comparator");
	ip=compute_inverse_stable_sort_permutation_using_comparator(v,greater); VH_REQUIRE(is_perm(ip,n),"inverse"); check_sorted_perm(v,greater,inv(ip),true,"compute_inverse_stable_sort_permutation_using_comparator");
	bool s=true, sg=true; for(unsigned i=1;i<n;++i){ if(v[i].key<v[i-1].key) s=false; if(v[i].key>v[i-1].key) sg=false; }
	VH_EQ(is_sorted_using_key(v,kc,key),s,"is_sorted_using_key"); VH_EQ(is_sorted_using_comparator(v,greater),sg,"is_sorted_using_comparator");
	VH_REQUIRE(eq(copy,v),"input changed");
	std::vector<unsigned>u(n); std::vector<std::string>t(n); for(unsigned i=0;i<n;++i){ u[i]=v[i].key; t[i]=v[i].s; }
	auto ul=[](unsigned a, unsigned b){return a<b;}; auto tl=[](const std::string&a,const std::string&b){return a<b;};
	check_sorted_perm(u,ul,compute_sort_permutation_using_less(u),false,"sort perm less"); check_sorted_perm(u,ul,compute_stable_sort_permutation_using_less(u),true,"stable sort perm less");
	ip=compute_inverse_sort_permutation_using_less(t); VH_REQUIRE(is_perm(ip,n),"inverse"); check_sorted_perm(t,tl,inv(ip),false,"inverse less"); ip=compute_inverse_stable_sort_permutation_using_less(t); VH_REQUIRE(is_perm(ip,n),"inverse"); check_sorted_perm(t,tl,inv(ip),true,"inverse stable less");
	check_sorted_vec(t,tl,sort_using_less(t),true,"sort_using_less"); check_sorted_vec(t,tl,stable_sort_using_less(t),true,"stable_sort_using_less"); { auto w=t; check_sorted_vec(t,tl,sort_using_less(std::move(w)),true,"sort_using_less&&"); auto w2=t; check_sorted_vec(t,tl,stable_sort_using_less(std::move(w2)),true,"stable_sort_using_less&&"); }
	VH_EQ(is_sorted_using_less(u),s,"is_sorted_using_less");
	if(n>1) c.nontrivial(vh::hvec(u,kc));
}
static void permuting(vh::Case&c){
	auto&r=c.rng; unsigned n=r.pick({0u,1u,2u,(unsigned)r.below(10),(unsigned)r.below(300)}); if(c.large(797)){ n=r.in(65530,90000); c.count("large permutations"); }
	auto p=gen::random_order(r,n), q=gen::random_order(r,n); c.desc="permutation p="+vh::show(p)+" q="+vh::show(q);
	std::vector<std::string>v(n); for(auto&x:v) x=std::string(r.below(30),'a'+r.below(26))+std::to_string(r.below(50));
	std::vector<std::string>e(n), ei(n); for(unsigned i=0;i<n;++i){ e[i]=v[p[i]]; ei[p[i]]=v[i]; }
	VH_REQUIRE(apply_permutation(p,v)==e,"apply_permutation"); VH_REQUIRE(apply_inverse_permutation(p,v)==ei,"apply_inverse_permutation");
	{ auto w=v; VH_REQUIRE(apply_permutation(p,std::move(w))==e,"apply_permutation&&"); w=v; VH_REQUIRE(apply_inverse_permutation(p,std::move(w))==ei,"apply_inverse_permutation&&"); }
	VH_REQUIRE(invert_permutation(p)==inv(p),"invert_permutation");
	VH_REQUIRE(apply_permutation(chain_permutation_first_left_then_right(p,q),v)==apply_permutation(q,apply_permutation(p,v)),"chain left then right");
	VH_REQUIRE(apply_permutation(chain_permutation_first_right_then_left(p,q),v)==apply_permutation(p,apply_permutation(q,v)),"chain right then left");
	std::vector<unsigned>id=identity_permutation(n); for(unsigned i=0;i<n;++i) VH_EQ(id[i],i,"identity");
	{ auto rp=random_permutation(n,r); VH_REQUIRE(is_perm(rp,n),"random_permutation"); }
	VH_EQ(is_permutation(p),true,"is_permutation"); if(n>1){ auto w=p; unsigned i=r.below(n); unsigned bad=r.chance(1,2)?n+r.below(3):p[(i+1)%n]; w[i]=bad; VH_EQ(is_permutation(w),false,"is_permutation of a damaged one"); w[i]=invalid_id; VH_EQ(is_permutation(w),false,"is_permutation with invalid_id"); }
	unsigned m=r.below(40); std::vector<unsigned>el(n?m:0), el2(m); for(auto&x:el) x=r.below(n); for(auto&x:el2) x=(n==0||r.chance(1,3))?invalid_id:r.below(n);
	auto want=el, want2=el2; for(auto&x:want) x=p[x]; for(auto&x:want2) if(x!=invalid_id) x=p[x];
	VH_REQUIRE(apply_permutation_to_elements_of(p,el)==want,"apply_permutation_to_elements_of"); { auto w=el; inplace_apply_permutation_to_elements_of(p,w); VH_REQUIRE(w==want,"inplace apply to elements"); }
	{ auto w=el2; inplace_apply_permutation_to_possibly_invalid_elements_of(p,w); VH_REQUIRE(w==want2,"inplace apply to possibly invalid elements"); }
	VH_REQUIRE(apply_permutation_to_possibly_invalid_elements_of(p,el2)==want2,"apply_permutation_to_possibly_invalid_elements_of"); c.count("invalid elements", std::count(el2.begin(),el2.end(),invalid_id));
	if(n>1) c.nontrivial(vh::hvec(p));
}
static void filtering(vh::Case&c){
	auto&r=c.rng; const bool big=c.large(1001); unsigned n=r.pick({0u,1u,(unsigned)r.below(10),(unsigned)r.below(700),512u,64u}); if(big){ n=r.in(65530,140000); c.count("large filters"); } unsigned d=r.below(4);
	BitVector f(n,false); std::vector<std::string>v(n), keep, rem; std::vector<unsigned>u(n), ukeep, urem;
	for(unsigned i=0;i<n;++i){ if(d==3 || (d && r.chance(1,2))) f.set(i); v[i]=std::to_string(r.next())+std::string(r.below(2)*20,'z'); if(r.chance(1,5)) v[i]=""; u[i]=r.below(100); (f.is_set(i)?keep:rem).push_back(v[i]); (f.is_set(i)?ukeep:urem).push_back(u[i]); }
	c.desc=vh::fmt("filter n=%u density mode %u",n,d);
	VH_REQUIRE(keep_element_of_vector_if(f,v)==keep,"keep strings"); VH_REQUIRE(remove_element_from_vector_if(f,v)==rem,"remove strings");
	VH_REQUIRE(keep_element_of_vector_if(f,u)==ukeep,"keep"); VH_REQUIRE(remove_element_from_vector_if(f,u)==urem,"remove");
	auto w=v; inplace_keep_element_of_vector_if(f,w); VH_REQUIRE(w==keep,"inplace keep"); w=v; inplace_remove_element_from_vector_if(f,w); VH_REQUIRE(w==rem,"inplace remove");
	c.count("filtered elements",n);
	// min max
	std::vector<int>x(r.in(1,50)); for(auto&y:x) y=(int)r.below(20)-10; unsigned mn=0,mx=0; for(unsigned i=0;i<x.size();++i){ if(x[i]<x[mn]) mn=i; if(x[i]>x[mx]) mx=i; }
	VH_EQ(first_min_element_position_of(x),mn,"first min position"); VH_EQ(first_max_element_position_of(x),mx,"first max position"); VH_EQ(min_element_of(x),x[mn],"min"); VH_EQ(max_element_of(x),x[mx],"max"); VH_EQ(min_element_of(x,7),x[mn],"min with default"); VH_EQ(max_element_of(x,7),x[mx],"max with default");
	std::vector<int>e; int def=77; VH_EQ(min_element_of(e,def),77,"min of nothing"); VH_EQ(max_element_of(e,def),77,"max of nothing");
	int a=(int)r.below(9)-4, b=(int)r.below(9)-4, z=a; min_to(z,b); VH_EQ(z,std::min(a,b),"min_to"); z=a; max_to(z,b); VH_EQ(z,std::max(a,b),"max_to");
	// inverse vector
	unsigned k=big?r.in(65530,100000):r.below(60); std::vector<unsigned>sv(k?r.below(big?200000:200):0); for(auto&y:sv) y=r.chance(1,8)?k-1:r.below(k); std::sort(sv.begin(),sv.end());
	if(r.chance(1,6)) sv.assign(sv.size(), k?r.below(k):0);
	auto idx=invert_vector(sv,k); VH_EQ(idx.size(),(size_t)k+1,"inverse vector size"); for(unsigned i=0;i<=k;++i) VH_EQ(idx[i],(unsigned)(std::lower_bound(sv.begin(),sv.end(),i)-sv.begin()),"invert_vector at %u",i);
	VH_REQUIRE(invert_inverse_vector(idx)==sv,"invert_inverse_vector");
	c.count("inverse vectors");
	if(n>1) c.nontrivial(vh::hvec(u,n));
}
void vh_case(vh::Case&c){ switch(c.idx%3){ case 0: sorting(c); break; case 1: permuting(c); break; default: filtering(c); } if(c.idx<3) c.sample(c.desc); }
