// C32: the command line tools run as real processes on files; every output is read back with raw IO and compared with an independent computation.
#include "vh.h"
#include "gen.h"
#include "pbf.h"
#include "osmmodel.h"
#include "profmodel.h"
#include "proftags.h"
#include <routingkit/osm_simple.h>
#include <routingkit/osm_graph_builder.h>
#include <routingkit/osm_profile.h>
#include <routingkit/contraction_hierarchy.h>
#include <spawn.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <cmath>
#include <type_traits>
#include <limits>
using namespace vh;
extern char**environ;

static std::string D;      // directory of this case
static Case*C;
static std::string P(const std::string&f){ return D+"/"+f; }
static std::string slurp(const std::string&f){ std::string s; FILE*h=fopen(f.c_str(),"rb"); if(!h) return s; char b[65536]; size_t n; while((n=fread(b,1,sizeof b,h))>0) s.append(b,n); fclose(h); return s; }
static void spit(const std::string&f,const std::string&s){ FILE*h=fopen(f.c_str(),"wb"); if(!h||fwrite(s.data(),1,s.size(),h)!=s.size()||fclose(h)!=0) throw std::runtime_error("can not write "+f); }
static bool exists(const std::string&f){ struct stat st; return stat(f.c_str(),&st)==0; }
template<class T> static void put(const std::string&f,const std::vector<T>&v){ spit(P(f),std::string((const char*)v.data(),v.size()*sizeof(T))); }
template<class T> static std::vector<T> get(const std::string&f){ VH_REQUIRE(exists(P(f)),"output file %s was not written; %s; stderr: %.300s",f.c_str(),C->desc.c_str(),slurp(P("ERR")).c_str()); std::string s=slurp(P(f)); VH_REQUIRE(s.size()%sizeof(T)==0,"file %s has %zu bytes",f.c_str(),s.size()); std::vector<T> v(s.size()/sizeof(T)); if(!v.empty()) memcpy(v.data(),s.data(),s.size()); return v; }
static void puts_(const std::string&f,const std::vector<std::string>&v){ std::string s; for(auto&x:v){ s+=x; s.push_back(0); } spit(P(f),s); }

struct Out{ std::string out, err; };
// runs a tool; arguments naming files are relative to the case directory
static Out run(const std::string&tool,const std::vector<std::string>&args,const std::string&in=""){
	static const std::string T=getenv("VH_TOOLS")?getenv("VH_TOOLS"):"";
	std::string bin=T+"/"+tool;
	if(!exists(bin)){ C->count("tools missing in the build"); throw std::runtime_error("tool "+bin+" does not exist"); }
	std::string cmd=tool; for(auto&a:args) cmd+=" "+a; C->desc+=" | "+cmd; if(C->desc.size()>3000) C->desc.erase(0,C->desc.size()-3000);
	spit(P("IN"),in);
	pid_t pid=fork();
	if(pid<0) throw std::runtime_error("fork failed");
	if(pid==0){
		if(chdir(D.c_str())!=0) _exit(120);
		int i=open("IN",O_RDONLY), o=open("OUT",O_WRONLY|O_CREAT|O_TRUNC,0644), e=open("ERR",O_WRONLY|O_CREAT|O_TRUNC,0644);
		dup2(i,0); dup2(o,1); dup2(e,2); alarm(120);
		std::vector<char*> av; av.push_back((char*)bin.c_str()); for(auto&a:args) av.push_back((char*)a.c_str()); av.push_back(nullptr);
		execv(bin.c_str(),av.data()); _exit(121);
	}
	int st=0; while(waitpid(pid,&st,0)<0&&errno==EINTR);
	beat();
	Out r; r.out=slurp(P("OUT")); r.err=slurp(P("ERR"));
	VH_REQUIRE(WIFEXITED(st),"%s was ended by signal %d: %s",tool.c_str(),WTERMSIG(st),r.err.substr(0,2000).c_str());
	VH_REQUIRE(WEXITSTATUS(st)!=77&&WEXITSTATUS(st)!=66&&WEXITSTATUS(st)!=23,"%s: sanitizer report: %s",tool.c_str(),r.err.substr(0,2500).c_str());
	VH_REQUIRE(WEXITSTATUS(st)<120,"%s: exit status %d",tool.c_str(),WEXITSTATUS(st));
	C->count("tool runs"); C->count("ran "+tool);
	return r;
}
static Out ok(const std::string&tool,const std::vector<std::string>&args,const std::string&in=""){ Out o=run(tool,args,in); VH_REQUIRE(o.err.find("exception")==std::string::npos,"%s failed on valid input: %s",tool.c_str(),o.err.substr(0,500).c_str()); return o; }
// on invalid input: an error message and none of the outputs
static void bad(const std::string&tool,const std::vector<std::string>&args,const std::vector<std::string>&outputs,const std::string&why,const std::string&in=""){
	for(auto&o:outputs) unlink(P(o).c_str());
	Out o=run(tool,args,in); C->count("rejected inputs");
	VH_REQUIRE(!o.err.empty(),"%s printed no error for %s",tool.c_str(),why.c_str());
	for(auto&f:outputs) VH_REQUIRE(!exists(P(f)),"%s wrote %s in spite of %s",tool.c_str(),f.c_str(),why.c_str());
}

static std::vector<std::string> lines(const std::string&s){ std::vector<std::string> v; size_t p=0; while(p<s.size()){ size_t q=s.find('\n',p); if(q==std::string::npos) q=s.size(); v.push_back(s.substr(p,q-p)); p=q+1; } return v; }

template<class T> static T rnd(Rng&r){
	if(std::is_floating_point<T>::value){
		switch(r.below(6)){ case 0: return (T)r.in(0,100); case 1: return (T)r.real(-1,1); case 2: return (T)r.real(-180,180); case 3: return (T)std::ldexp(r.real(-1,1),(int)r.in(0,60)-30); case 4: return (T)(1.0/ (double)r.in(1,1000)); default: return (T)(r.real(1,2)*(r.chance(1,2)?1e30:1e-30)); }
	}
	switch(r.below(4)){ case 0: return std::numeric_limits<T>::max(); case 1: return std::numeric_limits<T>::min(); case 2: return (T)r.below(100); default: return (T)r.next(); }
}
template<class T> static void num(Rng&r,const std::string&type){
	std::vector<T> v(r.chance(1,8)?0:r.below(30)+ (r.chance(1,10)?3000:0)); for(auto&x:v) x=rnd<T>(r);
	put("a",v); Out o=ok("decode_vector",{type,"a"}); auto l=lines(o.out);
	VH_EQ(l.size(),v.size(),"lines printed by decode_vector %s",type.c_str());
	for(size_t i=0;i<v.size();++i){
		if(std::is_floating_point<T>::value){ T x=sizeof(T)==4?(T)strtof(l[i].c_str(),0):(T)strtod(l[i].c_str(),0); VH_REQUIRE(x==v[i],"decode_vector %s prints %s for %.20g",type.c_str(),l[i].c_str(),(double)v[i]); }
		else VH_REQUIRE(l[i]==std::to_string(v[i]),"decode_vector %s prints \"%s\" for %s",type.c_str(),l[i].c_str(),std::to_string(v[i]).c_str());
	}
	ok("encode_vector",{type,"b"},o.out); auto w=get<T>("b"); VH_REQUIRE(w==v,"%s does not survive decode_vector | encode_vector",type.c_str());
	C->count("vectors converted to text and back");
	// text to binary
	std::string text; for(auto x:v){ if(std::is_floating_point<T>::value) text+=fmt("%.17g\n",(double)x); else text+=std::to_string(x)+"\n"; }
	if(!text.empty()&&r.chance(1,3)) text.pop_back();
	ok("encode_vector",{type,"c"},text); auto z=get<T>("c"); VH_REQUIRE(z==v,"encode_vector %s",type.c_str());
	if(!std::is_floating_point<T>::value&&sizeof(T)<8&&r.chance(1,2)){ long long x=r.chance(1,2)?(long long)std::numeric_limits<T>::max()+(long long)r.in(1,3):(long long)std::numeric_limits<T>::min()-(long long)r.in(1,3); bad("encode_vector",{type,"d"},{"d"},"a number out of range",text+"\n"+std::to_string(x)+"\n"); }
	// compare
	auto u=v; bool diff=false; size_t less=0, more=0, first=~0ull;
	for(unsigned k=r.below(4);k>0&&!u.empty();--k) u[r.below(u.size())]=rnd<T>(r);
	for(size_t i=0;i<u.size();++i){ if(v[i]<u[i]) ++less; if(u[i]<v[i]) ++more; if(u[i]!=v[i]){ diff=true; if(first==~0ull) first=i; } }
	if(r.chance(1,4)){ if(r.chance(1,2)||u.empty()) u.push_back(v.empty()||r.chance(1,2)?rnd<T>(r):v.back()); else u.pop_back(); }
	put("e",u); o=ok("compare_vector",{type,"a","e"});
	bool same_said=o.out.find("are the same and")!=std::string::npos, differ_said=o.out.find("differ.")!=std::string::npos, size_said=o.out.find("has only")!=std::string::npos;
	VH_REQUIRE(same_said+differ_said+size_said==1,"compare_vector said: %s",o.out.c_str());
	VH_REQUIRE(size_said==(u.size()!=v.size()),"compare_vector on %zu and %zu elements said: %s",v.size(),u.size(),o.out.c_str());
	if(!size_said){ VH_REQUIRE(differ_said==diff,"compare_vector on vectors with %zu+%zu differences said: %s",less,more,o.out.c_str());
		if(diff){ VH_REQUIRE(o.out.find(" "+std::to_string(less)+" elements are smaller in \"a\"")!=std::string::npos&&o.out.find(" "+std::to_string(more)+" elements are smaller in \"e\"")!=std::string::npos&&o.out.find(" "+std::to_string(less+more)+" elements are different")!=std::string::npos&&o.out.find("index "+std::to_string(first)+".")!=std::string::npos,"compare_vector: %zu smaller, %zu larger, first at %zu, but it said: %s",less,more,first,o.out.c_str()); C->count("differences reported"); }
		else C->count("equalities reported"); }
	C->nontrivial(hcombine(v.size(),hstr(o.out)));
}
static void strs(Rng&r){
	std::vector<std::string> v(r.below(20)); static const char*al[]={"\\","n","\n","\\n","a"," ","\"","\r","\t","\xc3\xa4","\\\\","0"};
	for(auto&s:v) for(unsigned k=r.below(8);k>0;--k) s+=al[r.below(12)];
	puts_("a",v); Out o=ok("decode_vector",{"string","a"}); VH_EQ(lines(o.out).size(),v.size(),"lines printed for strings");
	ok("encode_vector",{"string","b"},o.out); VH_REQUIRE(exists(P("b")),"encode_vector wrote nothing"); std::string x=slurp(P("a")), y=slurp(P("b"));
	VH_REQUIRE(x==y,"strings do not survive decode_vector | encode_vector: \"%s\" became \"%s\"",jesc(x).c_str(),jesc(y).c_str());
	C->count("string vectors converted to text and back");
	auto u=v; if(!u.empty()&&r.chance(1,2)){ auto&s=u[r.below(u.size())]; if(r.chance(1,2)||s.empty()) s+="x"; else s.pop_back(); } if(r.chance(1,5)) u.push_back("");
	puts_("e",u); o=ok("compare_vector",{"string","a","e"}); size_t eq=0; if(u.size()==v.size()) for(size_t i=0;i<v.size();++i) eq+=u[i]==v[i];
	VH_REQUIRE((o.out.find("are the same and")!=std::string::npos)==(u==v),"compare_vector string said: %s",o.out.c_str());
	if(u.size()!=v.size()) VH_REQUIRE(o.out.find("has only")!=std::string::npos,"compare_vector string said: %s",o.out.c_str());
	else if(u!=v) VH_REQUIRE(o.out.find("differ. "+std::to_string(eq)+" elements are the same")!=std::string::npos,"compare_vector string said: %s",o.out.c_str());
	C->nontrivial(hstr(x));
}
static void vectors(Rng&r){
	switch(r.below(11)){
		case 0: num<signed char>(r,"int8"); break; case 1: num<unsigned char>(r,"uint8"); break; case 2: num<short>(r,"int16"); break; case 3: num<unsigned short>(r,"uint16"); break;
		case 4: num<int>(r,"int32"); break; case 5: num<unsigned>(r,"uint32"); break; case 6: num<long long>(r,"int64"); break; case 7: num<unsigned long long>(r,"uint64"); break;
		case 8: num<float>(r,"float32"); break; case 9: num<double>(r,"float64"); break; default: strs(r);
	}
	if(r.chance(1,5)){ unsigned n=r.below(50); unsigned x=(unsigned)r.next(); ok("generate_constant_vector",{std::to_string(n),std::to_string(x),"k"}); VH_REQUIRE(get<unsigned>("k")==std::vector<unsigned>(n,x),"generate_constant_vector"); }
	if(r.chance(1,5)){ bad("decode_vector",{"uint32","missing"},{},"a missing file"); bad("compare_vector",{"uint32","a","missing"},{},"a missing file"); bad("decode_vector",{"uint31","a"},{},"an unknown type"); }
}

static double geo(double lat1,double lon1,double lat2,double lon2){ const double k=std::acos(-1.0)/180; long double x=std::sin((lat2-lat1)*k/2),y=std::sin((lon2-lon1)*k/2); return 2*6371000.785*std::asin(std::min<long double>(1,std::sqrt(x*x+std::cos(lat1*k)*std::cos(lat2*k)*y*y))); }

struct Csr{ std::vector<unsigned> fo, head, tail, w; };
static Csr make_csr(const gen::Graph&g){ // arcs in order of tail, arbitrary within
	Csr c; std::vector<unsigned> id(g.m()); for(unsigned i=0;i<g.m();++i) id[i]=i; std::stable_sort(id.begin(),id.end(),[&](unsigned a,unsigned b){ return g.tail[a]<g.tail[b]; });
	c.fo.assign(g.n+1,0); for(auto i:id){ c.tail.push_back(g.tail[i]); c.head.push_back(g.head[i]); c.w.push_back(g.weight[i]); ++c.fo[g.tail[i]+1]; } for(unsigned i=0;i<g.n;++i) c.fo[i+1]+=c.fo[i]; return c;
}
typedef std::vector<std::vector<unsigned>> Rows;
static Rows sorted_rows(const std::vector<unsigned>&fo,const std::vector<std::vector<unsigned>>&cols){ Rows v; for(unsigned x=0;x+1<fo.size();++x) for(unsigned a=fo[x];a<fo[x+1];++a){ std::vector<unsigned> t={x}; for(auto&c:cols) t.push_back(c[a]); v.push_back(t); } std::sort(v.begin(),v.end()); return v; }
static void valid_csr(const std::vector<unsigned>&fo,const std::vector<unsigned>&head,unsigned n,const char*what){
	VH_EQ(fo.size(),(size_t)n+1,"first_out of %s",what); VH_REQUIRE(fo[0]==0&&fo.back()==head.size()&&std::is_sorted(fo.begin(),fo.end()),"first_out of %s",what); for(auto x:head) VH_REQUIRE(x<n,"head %u of %u nodes, %s",x,n,what); }

static gen::Graph pick_graph(Rng&r,bool arcs){
	gen::Opt o; o.coords=true; gen::Graph g; do g=gen::graph(r,o); while(g.n==0||(arcs&&g.m()==0)||g.n>400);
	for(auto&w:g.weight) if(w>1000000) w%=1000000;
	return g;
}

static void dimacs(Rng&r){
	gen::Graph g=pick_graph(r,true);
	auto sep=[&]{ return r.chance(1,6)?std::string("  "):std::string(" "); };
	std::string s; auto noise=[&]{ if(r.chance(1,10)) s+="c a comment 1 2 3\n"; if(r.chance(1,20)) s+="\n"; };
	noise(); s+="p"+sep()+"sp "+std::to_string(g.n)+sep()+std::to_string(g.m())+"\n";
	for(unsigned i=0;i<g.m();++i){ noise(); s+="a"+sep()+std::to_string(g.tail[i]+1)+sep()+std::to_string(g.head[i]+1)+" "+std::to_string(g.weight[i])+"\n"; }
	if(r.chance(1,4)) s.pop_back(); else noise();
	spit(P("g.gr"),s); ok("convert_road_dimacs_graph",{"g.gr","fo","h","w"});
	auto fo=get<unsigned>("fo"), h=get<unsigned>("h"), w=get<unsigned>("w"); valid_csr(fo,h,g.n,"converted graph"); VH_EQ(w.size(),h.size(),"weights");
	Csr c=make_csr(g); auto want=sorted_rows(c.fo,{c.head,c.w}); VH_REQUIRE(sorted_rows(fo,{h,w})==want,"convert_road_dimacs_graph does not preserve the arcs of %s",g.show().c_str());
	ok("export_road_dimacs_graph",{"fo","h","w","x.gr"}); // own parser
	{ auto l=lines(slurp(P("x.gr"))); unsigned n=0,m=0; Rows v; bool header=false; for(auto&x:l){ if(x.empty()||x[0]=='c') continue; unsigned a,b,d; if(!header){ VH_REQUIRE(sscanf(x.c_str(),"p sp %u %u",&n,&m)==2,"exported header: %s",x.c_str()); header=true; } else { VH_REQUIRE(sscanf(x.c_str(),"a %u %u %u",&a,&b,&d)==3,"exported line: %s",x.c_str()); v.push_back({a-1,b-1,d}); } }
		std::sort(v.begin(),v.end()); VH_REQUIRE(n==g.n&&m==g.m()&&v==want,"export_road_dimacs_graph does not preserve the graph %s",g.show().c_str()); }
	ok("convert_road_dimacs_graph",{"x.gr","fo2","h2","w2"}); VH_REQUIRE(sorted_rows(get<unsigned>("fo2"),{get<unsigned>("h2"),get<unsigned>("w2")})==want&&get<unsigned>("fo2")==fo,"export and conversion do not preserve the graph"); C->count("graphs converted and exported");
	// coordinates
	std::vector<long long> la(g.n),lo(g.n); for(auto&x:la) x=(long long)r.in(0,180000000)-90000000; for(auto&x:lo) x=(long long)r.in(0,360000000)-180000000;
	std::vector<unsigned> ord=gen::random_order(r,g.n); std::string t; if(r.chance(1,2)) t="c header\n"; t+="p aux sp co "+std::to_string(g.n)+"\n"; for(auto i:ord){ t+="v "+std::to_string(i+1)+" "+std::to_string(lo[i])+" "+std::to_string(la[i])+"\n"; if(r.chance(1,20)) t+="c\n"; }
	spit(P("g.co"),t); ok("convert_road_dimacs_coordinates",{"g.co","la","lo"}); auto gla=get<float>("la"),glo=get<float>("lo"); VH_REQUIRE(gla.size()==g.n&&glo.size()==g.n,"coordinates: %zu %zu",gla.size(),glo.size());
	for(unsigned i=0;i<g.n;++i) VH_REQUIRE(std::fabs(gla[i]-la[i]/1e6)<=1.6e-5&&std::fabs(glo[i]-lo[i]/1e6)<=1.6e-5,"coordinates of node %u: %.8g %.8g for %lld %lld",i,gla[i],glo[i],la[i],lo[i]);
	C->count("coordinates converted",g.n);
	C->nontrivial(g.hash());
	// malformed files
	std::string b; std::string why; auto num=[&](unsigned x){ return std::to_string(x); };
	switch(r.below(8)){
		case 0: b="p sp "+num(g.n)+" 2\na 1 1 5\n"; why="too few arcs"; break;
		case 1: b="p sp "+num(g.n)+" 1\na 1 1 5\na 1 1 5\n"; why="too many arcs"; break;
		case 2: b="p sp "+num(g.n)+" 1\na 1 "+num(g.n+1)+" 5\n"; why="a head out of range"; break;
		case 3: b="p sp "+num(g.n)+" 1\na 0 1 5\n"; why="a tail out of range"; break;
		case 4: b=r.chance(1,2)?"":"c only a comment\n"; why="a missing header"; break;
		case 5: b="p sp "+num(g.n)+" 1\na 1 1\n"; why="a missing weight"; break;
		case 6: b="p max "+num(g.n)+" 1\na 1 1 5\n"; why="a wrong header"; break;
		default: b="p sp "+num(g.n)+" 1\nx 1 1 5\n"; why="an unknown line"; break;
	}
	spit(P("bad.gr"),b); bad("convert_road_dimacs_graph",{"bad.gr","q1","q2","q3"},{"q1","q2","q3"},why);
	switch(r.below(6)){
		case 0: b=""; why="an empty coordinate file"; break;
		case 1: b="p aux sp co 2\nv 1 5 5\n"; why="a missing position"; break;
		case 2: b="p aux sp co 1\nv 1 5 5\nv 1 6 6\n"; why="a repeated position"; break;
		case 3: b="p aux sp co 1\nv 2 5 5\n"; why="a node out of range"; break;
		case 4: b="p sp 1 1\nv 1 5 5\n"; why="a wrong header"; break;
		default: b="p aux sp co 1\nv 1 5\n"; why="a missing coordinate"; break;
	}
	spit(P("bad.co"),b); bad("convert_road_dimacs_coordinates",{"bad.co","q1","q2"},{"q1","q2"},why);
	if(r.chance(1,4)) bad("convert_road_dimacs_graph",{"nofile","q1","q2","q3"},{"q1","q2","q3"},"a missing file");
}

static void pipeline(Rng&r){
	gen::Graph g=pick_graph(r,false); Csr c=make_csr(g); unsigned n=g.n, m=c.head.size();
	put("fo",c.fo); put("h",c.head); put("w",c.w); put("la",g.lat); put("lo",g.lon);
	gen::Graph cg=g; cg.tail=c.tail; cg.head=c.head; cg.weight=c.w; gen::Adj adj(cg);
	unsigned nq=r.chance(1,8)?0:r.in(1,60); std::string seed=std::to_string(r.below(1u<<31));
	ok("generate_test_queries",{std::to_string(n),std::to_string(nq),seed,"s","t"}); auto s=get<unsigned>("s"), t=get<unsigned>("t"); VH_REQUIRE(s.size()==nq&&t.size()==nq,"%zu sources, %zu targets for %u queries",s.size(),t.size(),nq);
	for(unsigned i=0;i<nq;++i) VH_REQUIRE(s[i]<n&&t[i]<n,"query %u %u for %u nodes",s[i],t[i],n);
	if(r.chance(1,4)){ ok("generate_test_queries",{std::to_string(n),std::to_string(nq),seed,"s2","t2"}); VH_REQUIRE(get<unsigned>("s2")==s&&get<unsigned>("t2")==t,"queries are not reproducible from the seed"); C->count("reproducibility checks"); }
	std::vector<unsigned> want(nq); for(unsigned i=0;i<nq;++i) want[i]=gen::clampd(gen::dists(cg,adj,s[i])[t[i]]);
	auto cmp=[&](const char*f,const char*tool){ auto d=get<unsigned>(f); VH_EQ(d.size(),want.size(),"distances of %s",tool); for(unsigned i=0;i<nq;++i) VH_REQUIRE(d[i]==want[i],"%s: distance from %u to %u is %u, but %s says %u, %s",tool,s[i],t[i],want[i],tool,d[i],cg.show().c_str()); C->count("distances of tools checked",nq); };
	if(nq==0) C->count("empty query lists"); if(m==0) C->count("graphs without arcs");
	ok("run_dijkstra",{"fo","h","w","s","t","d1"}); cmp("d1","run_dijkstra");
	if(m==0) bad("compute_contraction_hierarchy",{"fo","h","w","ch"},{"ch"},"a graph without arcs");
	else{
		ok("compute_contraction_hierarchy",{"fo","h","w","ch"}); ok("run_contraction_hierarchy_query",{"ch","s","t","d2"}); cmp("d2","run_contraction_hierarchy_query");
		if(r.chance(1,4)){ auto o=ok("examine_ch",{"ch"}); VH_REQUIRE(o.out.find("node_count : "+std::to_string(n)+"\n")!=std::string::npos,"examine_ch: %s",o.out.c_str()); auto ch=RoutingKit::ContractionHierarchy::load_file(P("ch")); VH_REQUIRE(o.out.find("forward_ch_arc_count : "+std::to_string(ch.forward.head.size())+"\n")!=std::string::npos&&o.out.find("backward_ch_arc_count : "+std::to_string(ch.backward.head.size())+"\n")!=std::string::npos,"examine_ch: %s",o.out.c_str()); }
		if(r.chance(1,3)&&nq){ std::string in; for(unsigned i=0;i<std::min(nq,5u);++i) in+=std::to_string(s[i])+" "+std::to_string(t[i])+"\n"; auto o=ok("show_path",{"ch","la","lo"},in);
			auto at=[&](const std::string&x,unsigned v){ float lo=0,la=0; if(sscanf(x.c_str()," %f,%f",&lo,&la)!=2) return false; return lo==g.lon[v]&&la==g.lat[v]; }; std::map<std::pair<float,float>,unsigned> who; for(unsigned v=0;v<n;++v) who[{g.lon[v],g.lat[v]}]=v;
			size_t p=0; for(unsigned i=0;i<std::min(nq,5u);++i){ { const std::string pt="<Point><coordinates>"; size_t a=o.out.find(pt,p), b=a==std::string::npos?a:o.out.find(pt,a+1); VH_REQUIRE(b!=std::string::npos,"show_path printed fewer points than asked for"); VH_REQUIRE(at(o.out.substr(a+pt.size(),60),s[i])&&at(o.out.substr(b+pt.size(),60),t[i]),"show_path: wrong position of the source or target marker, from %u to %u: %s",s[i],t[i],o.out.substr(a,300).c_str()); }
				p=o.out.find("Path of length ",p); VH_REQUIRE(p!=std::string::npos,"show_path printed fewer paths than asked for"); unsigned d=strtoul(o.out.c_str()+p+15,0,10); VH_EQ(d,want[i],"length printed by show_path from %u to %u",s[i],t[i]);
				size_t a=o.out.find("<coordinates>\n",p), b=o.out.find("</coordinates>",a); VH_REQUIRE(a!=std::string::npos&&b!=std::string::npos,"show_path output"); auto l=lines(o.out.substr(a+14,b-a-14)); l.pop_back(); // last: indentation of the closing tag
				if(want[i]==gen::INF) VH_REQUIRE(l.empty(),"show_path shows a path to an unreachable node"); else { VH_REQUIRE(!l.empty(),"show_path: empty path"); 
					VH_REQUIRE(at(l.front(),s[i])&&at(l.back(),t[i]),"show_path: the path from %u to %u starts at %s and ends at %s",s[i],t[i],l.front().c_str(),l.back().c_str()); C->count("paths shown"); if(who.size()==n){ uint64_t sum=0; for(size_t k=0;k+1<l.size();++k){ float x0,y0,x1,y1; VH_REQUIRE(sscanf(l[k].c_str()," %f,%f",&x0,&y0)==2&&sscanf(l[k+1].c_str()," %f,%f",&x1,&y1)==2&&who.count({x0,y0})&&who.count({x1,y1}),"show_path: position %s is no node",l[k].c_str()); unsigned u=who[{x0,y0}],v=who[{x1,y1}],w=gen::INF; for(unsigned e=c.fo[u];e<c.fo[u+1];++e) if(c.head[e]==v) w=std::min(w,c.w[e]); VH_REQUIRE(w!=gen::INF,"show_path: no arc from %u to %u",u,v); sum+=w; } VH_EQ(sum,(uint64_t)want[i],"weight of the path shown from %u to %u",s[i],t[i]); C->count("shown paths walked"); } }
				p=b; }
			if(r.chance(1,2)){ bool src=r.chance(1,2); Out e=run("show_path",{"ch","la","lo"},src?std::to_string(n)+" 0\n":"0 "+std::to_string(n)+"\n"); VH_REQUIRE(e.err.find("ut of bounds")!=std::string::npos&&e.out.find("<kml")==std::string::npos,"show_path accepted node %u of %u",n,n); C->count("rejected inputs"); } }
		if(r.chance(1,6)) bad("run_contraction_hierarchy_query",{"w","s","t","dx"},{"dx"},"a file that is no hierarchy");
		if(nq>1&&r.chance(1,4)){ auto t3=t; t3.pop_back(); put("t3",t3); bad("run_dijkstra",{"fo","h","w","s","t3","dx"},{"dx"},"query lists of different length"); bad("run_contraction_hierarchy_query",{"ch","s","t3","dx"},{"dx"},"query lists of different length"); }
	}
	ok("compute_nested_dissection_order",{"fo","h","la","lo","ord"}); { auto o=get<unsigned>("ord"); VH_EQ(o.size(),(size_t)n,"order"); std::vector<char> seen(n); for(auto x:o){ VH_REQUIRE(x<n&&!seen[x],"order is no permutation"); seen[x]=1; } C->count("orders checked"); }
	ok("compute_geographic_distance_weights",{"fo","h","la","lo","gw"}); { auto gw=get<unsigned>("gw"); VH_EQ(gw.size(),(size_t)m,"geo weights"); for(unsigned a=0;a<m;++a){ double d=geo(g.lat[c.tail[a]],g.lon[c.tail[a]],g.lat[c.head[a]],g.lon[c.head[a]]); VH_REQUIRE(gw[a]+1.0>=d*0.995-0.5&&gw[a]<=d*1.005+0.5,"geographic weight %u of an arc of %.3f m",gw[a],d); } C->count("geographic weights",m); }
	if(r.chance(1,4)){ ok("graph_to_dot",{"fo","h","w","dot"}); auto l=lines(slurp(P("dot"))); Rows v; for(auto&x:l){ size_t p=x.find_first_of("0123456789"); unsigned a,b,d; if(p!=std::string::npos&&sscanf(x.c_str()+p,"%u -> %u[label=\"%u\"]",&a,&b,&d)==3) v.push_back({a,b,d}); } std::sort(v.begin(),v.end()); VH_REQUIRE(v==sorted_rows(c.fo,{c.head,c.w}),"graph_to_dot does not list the arcs"); C->count("dot files"); }
	if(r.chance(1,4)&&n>1){ ok("graph_to_svg",{"fo","h","la","lo","svg"}); std::string x=slurp(P("svg")); size_t k=0,p=0; while((p=x.find("<line ",p))!=std::string::npos){ ++k; ++p; } VH_EQ(k,(size_t)m,"lines in the svg"); }
	// permutation
	if(m>0){
		auto ids=gen::random_order(r,m); unsigned nw=r.below(3), pos=r.below(nw+1); std::vector<std::string> args={seed,"pfo","ph"}; put("pfo",c.fo); put("ph",c.head);
		for(unsigned i=0;i<=nw;++i){ std::string f="pw"+std::to_string(i); if(i==pos) put(f,ids); else put(f,c.w); args.push_back(f); }
		ok("randomly_permute_nodes",args); auto pfo=get<unsigned>("pfo"), ph=get<unsigned>("ph"); valid_csr(pfo,ph,n,"permuted graph"); VH_EQ(ph.size(),(size_t)m,"arcs of the permuted graph");
		auto pid=get<unsigned>("pw"+std::to_string(pos)); VH_EQ(pid.size(),(size_t)m,"ids"); std::vector<unsigned> where(m,~0u); for(unsigned i=0;i<m;++i) where[ids[i]]=i;
		std::vector<unsigned> to(n,~0u),from(n,~0u); std::vector<char> used(m,0); std::vector<unsigned> newarc(m);
		auto bind=[&](unsigned o,unsigned p){ VH_REQUIRE((to[o]==~0u||to[o]==p)&&(from[p]==~0u||from[p]==o),"randomly_permute_nodes maps node %u to %u and to %u, %s",o,to[o],p,cg.show().c_str()); to[o]=p; from[p]=o; };
		for(unsigned x=0;x<n;++x) for(unsigned a=pfo[x];a<pfo[x+1];++a){ VH_REQUIRE(pid[a]<m&&!used[where[pid[a]]],"arc lost"); unsigned old=where[pid[a]]; used[old]=1; newarc[old]=a; bind(c.tail[old],x); bind(c.head[old],ph[a]); }
		for(unsigned i=0;i<=nw;++i) if(i!=pos){ auto w=get<unsigned>("pw"+std::to_string(i)); VH_EQ(w.size(),(size_t)m,"weights"); for(unsigned a=0;a<m;++a) VH_EQ(w[newarc[a]],c.w[a],"weight of arc %u after permutation (weight file %u of %u)",a,i,nw+1); }
		C->count("permutations checked");
		if(r.chance(1,4)){ put("pfo2",c.fo); put("ph2",c.head); ok("randomly_permute_nodes",{seed,"pfo2","ph2"}); VH_REQUIRE(get<unsigned>("pfo2")==pfo,"permutation is not reproducible from the seed"); C->count("reproducibility checks"); }
	}
	// rank queries
	if(r.chance(1,3)){ unsigned k=r.below(4); ok("generate_dijkstra_rank_test_queries",{"fo","h","w",std::to_string(k),seed,"rs","rt","rr","rd"}); auto a=get<unsigned>("rs"),b=get<unsigned>("rt"),rk=get<unsigned>("rr"),d=get<unsigned>("rd"); VH_REQUIRE(a.size()==b.size()&&a.size()==rk.size()&&a.size()==d.size(),"rank query sizes");
		for(size_t i=0;i<a.size();++i){ VH_REQUIRE(a[i]<n&&b[i]<n,"rank query out of range"); auto ds=gen::dists(cg,adj,a[i]); VH_EQ((uint64_t)d[i],ds[b[i]],"distance of rank query %zu",i); // 2^rank-th settled node
			auto fin=ds; std::sort(fin.begin(),fin.end()); VH_REQUIRE(rk[i]<32&&(1u<<rk[i])<=n,"rank %u",rk[i]); VH_EQ(fin[(1u<<rk[i])-1],(uint64_t)d[i],"node number 2^%u from %u",rk[i],a[i]); C->count("rank queries"); } }
	C->nontrivial(cg.hash());
}
static void generators(Rng&r){
	unsigned n=r.chance(1,4)?r.in(1,3):r.chance(1,4)?(unsigned)r.in(2000000000u,4294967295u):r.in(1,1000000), k=r.chance(1,3)?0:r.below(400); std::string seed=std::to_string(r.below(1ull<<32));
	std::string an=std::to_string(n);
	if(n<1000&&r.chance(1,3)){ put("nv",std::vector<unsigned>(n,7)); an="nv"; }
	ok("generate_random_node_list",{an,std::to_string(k),seed,"l"}); auto l=get<unsigned>("l"); VH_EQ(l.size(),(size_t)k,"node list"); for(auto x:l) VH_REQUIRE(x<n,"node %u of %u",x,n);
	ok("generate_random_node_list",{an,std::to_string(k),seed,"l2"}); VH_REQUIRE(get<unsigned>("l2")==l,"node list not reproducible");
	if(n<=3&&k>200){ std::set<unsigned> s(l.begin(),l.end()); VH_EQ(s.size(),(size_t)n,"nodes that occur in a list of %u",k); } if(n>1000&&k>100){ std::set<unsigned> s(l.begin(),l.end()); VH_REQUIRE(s.size()>k/2&&*s.rbegin()-*s.begin()>n/4,"node list of %u nodes has only %zu different ones",n,s.size()); }
	put("per",std::vector<unsigned>{n}); ok("generate_random_source_times",{std::to_string(k),seed,"per","ti"}); auto t=get<unsigned>("ti"); VH_EQ(t.size(),(size_t)k,"times"); for(auto x:t) VH_REQUIRE(x<n,"time %u of period %u",x,n);
	ok("generate_random_source_times",{std::to_string(k),seed,"per","ti2"}); VH_REQUIRE(get<unsigned>("ti2")==t,"times not reproducible");
	ok("generate_test_queries",{std::to_string(n),std::to_string(k),seed,"s","t"}); auto s=get<unsigned>("s"),tt=get<unsigned>("t"); VH_REQUIRE(s.size()==k&&tt.size()==k,"queries"); for(unsigned i=0;i<k;++i) VH_REQUIRE(s[i]<n&&tt[i]<n,"query %u %u of %u",s[i],tt[i],n); if(k>20&&n>1000) VH_REQUIRE(s!=tt,"sources equal targets");
	for(auto*v:{&l,&t,&s,&tt}) if(n>1000&&k>100){ std::set<unsigned> f(v->begin(),v->begin()+k/2), b(v->begin()+k/2,v->end()); VH_REQUIRE(f.size()>k/4&&b.size()>k/4&&*f.rbegin()-*f.begin()>n/4&&*b.rbegin()-*b.begin()>n/4,"random list of %u values below %u: only %zu different ones in the first half, %zu in the second",k,n,f.size(),b.size()); C->count("spread checks"); }
	C->count("generator runs"); C->nontrivial(hvec(s,hvec(t,hvec(l))));
}
static void osm(Rng&r){
	using namespace osmm; using namespace RoutingKit;
	static const double bases[][2]={{0,0},{48.9,8.4},{-33,151}}; auto b=bases[r.below(3)];
	Net n=make_net(r, r.pick({1u,3u,6u,10u}), r.pick({0.0001,0.001,0.02,4.0}), b[0],b[1], r.chance(1,2));
	bool none=r.chance(1,8); auto tags=[&](const Elem&e){ pm::Tags t; for(auto&x:e.tags) t[x.first]=x.second; return t; };
	for(auto&w:n.ways){ pm::Tags t; do{ t=ptags::random_tags(r); if(none) t.erase("highway"),t.erase("route"),t.erase("junction"); else if(r.chance(2,3)){ for(auto k:{"access","motorcar","motor_vehicle","crossing"}) t.erase(k); t["highway"]=r.pick(std::vector<std::string>{"residential","tertiary","service","secondary","track","living_street"}); } for(auto&x:t) for(auto&ch:x.second) if(!ch) ch='_'; }while(pm::car_dir(t)<0||pm::speed(t)<0); for(auto&x:t) w.tags.push_back({x.first,x.second}); }
	auto order=n.file_order(r,true); pbf::Writer w; w.r=&r; auto blocks=pbf::layout(order,r); pbf::write_file(P("o.pbf"),w.file(blocks,false));
	bool full=r.chance(1,2); Out o;
	if(full) o=ok("osm_extract",{"o.pbf","fo","h","gd","tt","way","ws","wn","la","lo","on","ow"}); else o=ok("osm_extract",{"o.pbf","fo","h","gd","tt","la","lo"});
	VH_REQUIRE(o.out.find("Exception")==std::string::npos,"osm_extract failed: %s",o.out.substr(0,500).c_str());
	auto g=simple_load_osm_car_routing_graph_from_pbf(P("o.pbf")); size_t m=g.head.size();
	VH_REQUIRE(get<unsigned>("fo")==g.first_out&&get<unsigned>("h")==g.head&&get<unsigned>("gd")==g.geo_distance&&get<float>("la")==g.latitude&&get<float>("lo")==g.longitude,"osm_extract and the simple loader give different graphs");
	auto tt=get<unsigned>("tt"); VH_EQ(tt.size(),m,"travel times"); for(size_t a=0;a<m;++a) VH_EQ(tt[a],g.travel_time[a],"travel time of arc %zu with %u m",a,g.geo_distance[a]);
	if(full){ auto way=get<unsigned>("way"), ws=get<unsigned>("ws"); Model mo=build_model(n,[&](const Elem&e){ return pm::car(tags(e)); },nullptr,false,[&](const Elem&e){ return pm::car_dir(tags(e)); }); VH_EQ(way.size(),m,"ways of arcs"); VH_EQ(ws.size(),mo.way_list.size(),"speeds of ways");
		for(auto&e:n.ways){ auto it=mo.way_local.find(e.id); if(it!=mo.way_local.end()) VH_EQ(ws[it->second],(unsigned)pm::speed(tags(e)),"speed of way %lld",(long long)e.id); }
		for(size_t a=0;a<m;++a){ VH_REQUIRE(way[a]<ws.size(),"way of arc %zu",a); uint64_t x=(uint64_t)g.geo_distance[a]*3600/ws[way[a]]; VH_EQ((uint64_t)tt[a],std::min<uint64_t>(x,2147483647u),"travel time of arc %zu",a); }
		std::string wn=slurp(P("wn")); VH_EQ((size_t)std::count(wn.begin(),wn.end(),'\0'),ws.size(),"way names"); C->count("full extracts"); }
	if(m==0) C->count("extracts without arcs"); C->count("extracted arcs",m); for(auto x:g.geo_distance) if(x>238609) C->count("arcs beyond 32 bit products"); C->nontrivial(hcombine(hvec(g.head),hvec(g.geo_distance)));
}
void vh_case(Case&c){
	C=&c; D=c.scratch+"/t"; std::string rm="rm -rf '"+D+"'"; if(system(rm.c_str())){} mkdir(D.c_str(),0755);
	Rng&r=c.rng; unsigned k=r.below(20);
	if(k<6) vectors(r); else if(k<10) dimacs(r); else if(k<16) pipeline(r); else if(k<18) generators(r); else osm(r);
	c.sample(c.desc.substr(0,300)); if(system(rm.c_str())){}
}
