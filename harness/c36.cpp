// C36: structure of contraction hierarchies and their validity check
#include "cchutil.h"
#include <sstream>
using namespace RoutingKit; using namespace gen; using namespace vh;
typedef ContractionHierarchy CH;
static bool rejects(const CH&ch){ try{ check_contraction_hierarchy_for_errors(ch); }catch(std::exception&){ return true; } return false; }
static std::vector<unsigned> tails(const CH::Side&s, unsigned n){ std::vector<unsigned> t(s.head.size()); for(unsigned x=0;x<n;++x) for(unsigned a=s.first_out[x];a<s.first_out[x+1];++a) t[a]=x; return t; }
// independent structural check, bounds first
static void structure(Case&c, const Graph&g, const CH&ch, const char*what){
	unsigned n=g.n;
	VH_EQ(ch.node_count(), n, "node count");
	VH_REQUIRE(ch.rank.size()==n && ch.order.size()==n, "%s: rank has %zu entries, order %zu for %u nodes", what, ch.rank.size(), ch.order.size(), n);
	std::vector<char> seen(n,0); for(unsigned i=0;i<n;++i){ VH_REQUIRE(ch.order[i]<n && !seen[ch.order[i]], "%s: order is not a permutation at %u", what, i); seen[ch.order[i]]=1; VH_REQUIRE(ch.rank[ch.order[i]]==i, "%s: rank is not the inverse of order at %u", what, i); }
	auto side=[&](const CH::Side&s, const char*name){
		VH_REQUIRE(s.first_out.size()==n+1 && s.first_out[0]==0, "%s: %s first_out", what, name);
		for(unsigned x=0;x<n;++x) VH_REQUIRE(s.first_out[x]<=s.first_out[x+1], "%s: %s first_out not monotone at %u", what, name, x);
		size_t m=s.first_out[n];
		VH_REQUIRE(s.head.size()==m && s.weight.size()==m && s.shortcut_first_arc.size()==m && s.shortcut_second_arc.size()==m && s.is_shortcut_an_original_arc.size()==m, "%s: %s arc arrays differ in length", what, name);
		for(unsigned x=0;x<n;++x) for(unsigned a=s.first_out[x];a<s.first_out[x+1];++a) VH_REQUIRE(s.head[a]>x && s.head[a]<n, "%s: %s arc %u from rank %u to rank %u", what, name, a, x, s.head[a]);
	};
	side(ch.forward,"forward"); side(ch.backward,"backward");
	auto ft=tails(ch.forward,n), bt=tails(ch.backward,n);
	auto arcs=[&](const CH::Side&s, const std::vector<unsigned>&tl, bool fwd){
		for(unsigned a=0;a<s.head.size();++a){
			unsigned from = fwd ? tl[a] : s.head[a], to = fwd ? s.head[a] : tl[a], f=s.shortcut_first_arc[a], k=s.shortcut_second_arc[a];
			if(s.is_shortcut_an_original_arc.is_set(a)){
				VH_REQUIRE(f<g.m(), "%s: original arc %u of input arc %u of %zu", what, a, f, (size_t)g.m());
				VH_REQUIRE(k==ch.order[to], "%s: original arc %u ends at input node %u instead of %u", what, a, k, ch.order[to]);
				VH_REQUIRE(g.tail[f]==ch.order[from] && g.head[f]==ch.order[to] && g.weight[f]==s.weight[a], "%s: hierarchy arc %u (%u to %u weight %u) claims to be input arc %u (%u to %u weight %u)", what, a, ch.order[from], ch.order[to], s.weight[a], f, g.tail[f], g.head[f], g.weight[f]);
				c.count("original arcs");
			}else{
				VH_REQUIRE(f<ch.backward.head.size() && k<ch.forward.head.size(), "%s: shortcut %u consists of arcs %u and %u that do not exist", what, a, f, k);
				VH_REQUIRE(bt[f]==ft[k] && bt[f]<tl[a], "%s: the halves of shortcut %u meet at ranks %u and %u, its lower end has rank %u", what, a, bt[f], ft[k], tl[a]);
				VH_REQUIRE(ch.backward.head[f]==from && ch.forward.head[k]==to, "%s: the halves of the shortcut from %u to %u lead from %u to %u", what, from, to, ch.backward.head[f], ch.forward.head[k]);
				VH_REQUIRE((uint64_t)ch.backward.weight[f]+ch.forward.weight[k]==s.weight[a], "%s: shortcut %u has weight %u instead of %u+%u", what, a, s.weight[a], ch.backward.weight[f], ch.forward.weight[k]);
				c.count("shortcuts");
			}
		}
	};
	arcs(ch.forward,ft,true); arcs(ch.backward,bt,false);
}
static void resize(BitVector&b, size_t n){ BitVector x(n); for(size_t i=0;i<n&&i<b.size();++i) x.set(i,b.is_set(i)); b=x; }
void vh_case(Case&c){
	Rng&r=c.rng; Opt o; o.size_class = c.large(4999) ? 3 : c.idx%60==0 ? 2 : (c.idx%3==0 ? 0 : 1); o.allow_inf=o.allow_huge=true;
	Graph g=graph(r,o); c.desc=g.show();
	CH ch;
	unsigned kind=r.below(4);
	if(kind==0){ auto cch=build_cch(c,g); CustomizableContractionHierarchyMetric m(cch,g.weight); ch=m.build_contraction_hierarchy_using_perfect_witness_search(); c.count("perfect hierarchies"); }
	else { ch=build_ch(c,g); if(kind==1){ std::stringstream s; ch.write(s); ch=CH::read(s); c.count("reloaded hierarchies"); } else c.count("built hierarchies"); }
	try{ check_contraction_hierarchy_for_errors(ch); }catch(std::exception&e){ c.fail(std::string("a correct hierarchy is rejected: ")+e.what()); }
	structure(c,g,ch,"hierarchy");
	unsigned n=g.n; if(ch.forward.head.size()+ch.backward.head.size()>4) c.nontrivial(g.hash());
	unsigned rounds = n>200 ? 12 : 60;
	for(unsigned k=0;k<rounds;++k){
		CH d=ch; std::string what; bool fw=r.chance(1,2); auto&s=fw?d.forward:d.backward; const char*nm=fw?"forward":"backward"; unsigned m=s.head.size();
		unsigned a = m ? r.below(m) : 0; const unsigned far[]={n,n+1,0x7fffffffu,0x80000000u,0xfffffffeu,0xffffffffu};
		auto len=[&](std::vector<unsigned>&v, const char*w){ if(v.empty()||r.chance(1,2)){ v.push_back(v.empty()?0:v.back()); what=fmt("%s has one entry too many",w); } else { v.pop_back(); what=fmt("%s lacks the last entry",w); } };
		unsigned what_kind=r.below(20);
		switch(what_kind){
		case 0: if(n){ unsigned i=r.below(n); d.order[i]=far[r.below(6)]; what=fmt("order[%u] out of range",i); } break;
		case 1: if(n>1){ unsigned i=r.below(n),j=r.below(n); if(i!=j){ d.order[i]=d.order[j]; what=fmt("order repeats %u",d.order[j]); } } break;
		case 2: if(n>1){ unsigned i=r.below(n),j=r.below(n); if(i!=j){ std::swap(d.rank[i],d.rank[j]); what=fmt("rank of %u and %u exchanged",i,j); } } break;
		case 3: if(n){ unsigned i=r.below(n); d.rank[i]=far[r.below(6)]; what=fmt("rank[%u] out of range",i); } break;
		case 4: if(r.chance(1,2)) len(d.rank,"rank"); else len(d.order,"order"); break;
		case 5: len(s.first_out,"first_out"); break;
		case 6: len(s.head,"head"); break;
		case 7: len(s.weight,"weight"); break;
		case 8: len(s.shortcut_first_arc,"shortcut_first_arc"); break;
		case 9: len(s.shortcut_second_arc,"shortcut_second_arc"); break;
		case 10: { size_t z=m+1; if(m&&r.chance(1,2)) z=m-1; resize(s.is_shortcut_an_original_arc,z); what="wrong number of original arc flags"; break; }
		case 11: s.first_out[0]= r.chance(1,2)||!m ? 1 : r.in(1,m); what="first_out does not start at zero"; break;
		case 12: if(n>=2){ unsigned i=r.in(1,n-1); unsigned v=r.chance(1,2)?far[r.below(6)]:s.first_out[i+1]+1; if(v>s.first_out[i+1]){ s.first_out[i]=v; what=fmt("first_out[%u] larger than its successor",i); } } break;
		case 13: if(m){ s.head[a]=far[r.below(6)]; what=fmt("head[%u] out of range",a); } break;
		case 14: if(m){ auto t=tails(s,n); s.head[a]=r.below(t[a]+1); what=fmt("arc %u from rank %u leads down to rank %u",a,t[a],s.head[a]); } break;
		case 15: if(m && !s.is_shortcut_an_original_arc.is_set(a)){ unsigned lim=d.backward.head.size(); s.shortcut_first_arc[a]=r.chance(1,2)?lim:lim+1+r.below(0xffffffffu-lim); what=fmt("first half of shortcut %u does not exist",a); } break;
		case 16: if(m && !s.is_shortcut_an_original_arc.is_set(a)){ unsigned lim=d.forward.head.size(); s.shortcut_second_arc[a]=r.chance(1,2)?lim:lim+1+r.below(0xffffffffu-lim); what=fmt("second half of shortcut %u does not exist",a); } break;
		case 17: if(m && !s.is_shortcut_an_original_arc.is_set(a)){ (fw?s.shortcut_second_arc:s.shortcut_first_arc)[a]=r.chance(1,2)?a:a+r.below(m-a); what=fmt("shortcut %u contains itself or a later arc",a); } break;
		case 18: if(m && !s.is_shortcut_an_original_arc.is_set(a)){ s.weight[a]+= r.chance(1,2)?1:1+r.below(1000); what=fmt("weight of shortcut %u is not the sum of its halves",a); } break;
		case 19: if(m && s.is_shortcut_an_original_arc.is_set(a)){ if(r.chance(1,2)){ s.shortcut_first_arc[a]=0xffffffffu; what=fmt("original arc %u without input arc",a); } else { s.shortcut_second_arc[a]=far[r.below(6)]; what=fmt("original arc %u without input node",a); } } break;
		}
		if(what.empty()) continue;
		VH_REQUIRE(rejects(d), "damaged hierarchy accepted (%s: %s)", nm, what.c_str());
		c.count(fmt("damage kind %02u",what_kind)); c.count("damaged hierarchies");
	}
	if(g.m()>8) c.sample(c.desc);
}
