// OpenMP runtime stand-in built on plain pthreads so that ThreadSanitizer sees every synchronisation the
// program really asked for, and nothing more: work is handed out with relaxed atomics (no happens-before),
// barriers are pthread barriers. Injects random delays at the scheduling points.
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#include <stdlib.h>
#include <stdint.h>
#include <stdio.h>
#include <vector>
extern "C"{
uint64_t vh_gomp_regions=0, vh_gomp_chunks=0, vh_gomp_threads=0, vh_gomp_delay_seed=1;
uint64_t vh_gomp_schedule_hash=0;
}
namespace{
const unsigned MAXWS=1u<<18;
struct Team{ unsigned n; long*ws; pthread_barrier_t bar; uint64_t seed; };
struct Ctx{ Team*team; unsigned id; unsigned gen; long start,end,incr,chunk; bool up; unsigned long long ustart,uend,uincr,uchunk; uint64_t rng; uint64_t hash; };
thread_local Ctx ctx={nullptr,0,0,0,0,0,0,true,0,0,0,0,1,0};
uint64_t mixs(uint64_t x){ x+=0x9e3779b97f4a7c15ull; x=(x^(x>>30))*0xbf58476d1ce4e5b9ull; x=(x^(x>>27))*0x94d049bb133111ebull; return x^(x>>31); }
void delay(){
	ctx.rng=mixs(ctx.rng); unsigned k=ctx.rng%16;
	if(k<4) sched_yield(); else if(k==4) usleep((ctx.rng>>20)%120);
}
struct Start{ void(*fn)(void*); void*data; Team*team; unsigned id; };
void*body(void*p){
	Start*s=(Start*)p; Ctx save=ctx;
	ctx=Ctx{s->team,s->id,0,0,0,0,0,true,0,0,0,0,mixs(s->team->seed*1315423911u+s->id),0};
	delay(); s->fn(s->data);
	__atomic_fetch_add(&vh_gomp_schedule_hash, ctx.hash, __ATOMIC_RELAXED);
	ctx=save; return nullptr;
}
long take(){ // index of the next chunk of the current work share
	delay();
	long i=__atomic_fetch_add(&ctx.team->ws[ctx.gen%MAXWS],1,__ATOMIC_RELAXED);
	__atomic_fetch_add(&vh_gomp_chunks,1,__ATOMIC_RELAXED);
	ctx.hash=mixs(ctx.hash^mixs(((uint64_t)ctx.id<<48)^((uint64_t)ctx.gen<<24)^i));
	return i;
}
Team*single(){ static thread_local Team t{1,nullptr,{},1}; if(!t.ws){ t.ws=(long*)calloc(MAXWS,sizeof(long)); pthread_barrier_init(&t.bar,nullptr,1);} return &t; }
bool next(long*a,long*b){
	long i=take(); long c=ctx.chunk<1?1:ctx.chunk;
	if(ctx.incr>0){ long s=ctx.start+i*c*ctx.incr; if(s>=ctx.end) return false; long e=s+c*ctx.incr; if(e>ctx.end||e<s) e=ctx.end; *a=s;*b=e; return true; }
	long s=ctx.start+i*c*ctx.incr; if(s<=ctx.end) return false; long e=s+c*ctx.incr; if(e<ctx.end) e=ctx.end; *a=s;*b=e; return true;
}
bool start(long s,long e,long i,long c,long*a,long*b){ if(!ctx.team) ctx.team=single(); ctx.start=s;ctx.end=e;ctx.incr=i;ctx.chunk=c; return next(a,b); }
bool unext(unsigned long long*a,unsigned long long*b){
	unsigned long long i=take(), c=ctx.uchunk<1?1:ctx.uchunk;
	if(ctx.up){ unsigned long long s=ctx.ustart+i*c*ctx.uincr; if(s>=ctx.uend) return false; unsigned long long e=s+c*ctx.uincr; if(e>ctx.uend||e<s) e=ctx.uend; *a=s;*b=e; return true; }
	unsigned long long dec=0ull-ctx.uincr, off=i*c*dec; if(ctx.ustart<ctx.uend||ctx.ustart-ctx.uend<=off) return false; *a=ctx.ustart-off; unsigned long long e=off+c*dec; *b = ctx.ustart-ctx.uend<=e ? ctx.uend : ctx.ustart-e; return true;
}
bool ustart(bool up,unsigned long long s,unsigned long long e,unsigned long long i,unsigned long long c,unsigned long long*a,unsigned long long*b){ if(!ctx.team) ctx.team=single(); ctx.up=up;ctx.ustart=s;ctx.uend=e;ctx.uincr=i;ctx.uchunk=c; return unext(a,b); }
pthread_mutex_t crit=PTHREAD_MUTEX_INITIALIZER, atom=PTHREAD_MUTEX_INITIALIZER;
}
extern "C"{
void GOMP_parallel(void(*fn)(void*), void*data, unsigned n, unsigned){
	if(n==0) n=4; if(ctx.team && ctx.team->n>1) n=1;
	Team t; t.n=n; t.ws=(long*)calloc(MAXWS,sizeof(long)); pthread_barrier_init(&t.bar,nullptr,n);
	t.seed=__atomic_fetch_add(&vh_gomp_delay_seed,1,__ATOMIC_RELAXED);
	__atomic_fetch_add(&vh_gomp_regions,1,__ATOMIC_RELAXED); __atomic_fetch_add(&vh_gomp_threads,n,__ATOMIC_RELAXED);
	std::vector<pthread_t>th(n); std::vector<Start>st(n);
	for(unsigned i=0;i<n;++i) st[i]=Start{fn,data,&t,i};
	for(unsigned i=1;i<n;++i) if(pthread_create(&th[i],nullptr,body,&st[i])!=0){ fprintf(stderr,"pthread_create failed\n"); abort(); }
	body(&st[0]);
	for(unsigned i=1;i<n;++i) pthread_join(th[i],nullptr);
	pthread_barrier_destroy(&t.bar); free(t.ws);
}
void GOMP_barrier(){ delay(); if(ctx.team && ctx.team->n>1) pthread_barrier_wait(&ctx.team->bar); delay(); }
void GOMP_loop_end(){ ++ctx.gen; GOMP_barrier(); }
void GOMP_loop_end_nowait(){ ++ctx.gen; }
#define LOOP(kind) \
bool GOMP_loop_##kind##_start(long s,long e,long i,long c,long*a,long*b){ return start(s,e,i,c,a,b); } \
bool GOMP_loop_##kind##_next(long*a,long*b){ return next(a,b); } \
bool GOMP_loop_ull_##kind##_start(bool up,unsigned long long s,unsigned long long e,unsigned long long i,unsigned long long c,unsigned long long*a,unsigned long long*b){ return ustart(up,s,e,i,c,a,b); } \
bool GOMP_loop_ull_##kind##_next(unsigned long long*a,unsigned long long*b){ return unext(a,b); }
LOOP(static) LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
#define LOOPR(kind) \
bool GOMP_loop_##kind##_start(long s,long e,long i,long*a,long*b){ return start(s,e,i,1,a,b); } \
bool GOMP_loop_##kind##_next(long*a,long*b){ return next(a,b); } \
bool GOMP_loop_ull_##kind##_start(bool up,unsigned long long s,unsigned long long e,unsigned long long i,unsigned long long*a,unsigned long long*b){ return ustart(up,s,e,i,1,a,b); } \
bool GOMP_loop_ull_##kind##_next(unsigned long long*a,unsigned long long*b){ return unext(a,b); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
struct PL{ void(*fn)(void*); void*data; long s,e,i,c; };
static void pl(void*p){ PL*x=(PL*)p; ctx.start=x->s;ctx.end=x->e;ctx.incr=x->i;ctx.chunk=x->c; x->fn(x->data); }
#define PLOOP(kind) void GOMP_parallel_loop_##kind(void(*fn)(void*),void*data,unsigned n,long s,long e,long i,long c,unsigned f){ PL x{fn,data,s,e,i,c}; GOMP_parallel(pl,&x,n,f); }
PLOOP(static) PLOOP(dynamic) PLOOP(guided) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided)
#define PLOOPR(kind) void GOMP_parallel_loop_##kind(void(*fn)(void*),void*data,unsigned n,long s,long e,long i,unsigned f){ PL x{fn,data,s,e,i,1}; GOMP_parallel(pl,&x,n,f); }
PLOOPR(runtime) PLOOPR(nonmonotonic_runtime) PLOOPR(maybe_nonmonotonic_runtime)
bool GOMP_single_start(){ if(!ctx.team) ctx.team=single(); bool r=__atomic_fetch_add(&ctx.team->ws[ctx.gen%MAXWS],1,__ATOMIC_RELAXED)==0; ++ctx.gen; return r; }
void GOMP_critical_start(){ pthread_mutex_lock(&crit); }
void GOMP_critical_end(){ pthread_mutex_unlock(&crit); }
void GOMP_critical_name_start(void**){ pthread_mutex_lock(&crit); }
void GOMP_critical_name_end(void**){ pthread_mutex_unlock(&crit); }
void GOMP_atomic_start(){ pthread_mutex_lock(&atom); }
void GOMP_atomic_end(){ pthread_mutex_unlock(&atom); }
int omp_get_num_procs(){ return 4; }
int omp_get_max_threads(){ return 4; }
int omp_get_num_threads(){ return ctx.team?ctx.team->n:1; }
int omp_get_thread_num(){ return ctx.team?ctx.id:0; }
int omp_in_parallel(){ return ctx.team&&ctx.team->n>1; }
void omp_set_num_threads(int){}
double omp_get_wtime(){ return 0; }
}
