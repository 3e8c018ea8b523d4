// C23: the asynchronous reader against its own byte source.
// The source is instrumented (delivered byte count, concurrency, fault injection, delays); the reader side keeps the
// expected stream position and checks every returned byte, and again just before the next request.
#include "vh.h"
#include "buffered_asynchronous_reader.h"
#include "file_data_source.h"
#include <thread>
#include <memory>
#include <dirent.h>
#include <set>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <cerrno>
using namespace RoutingKit;
using namespace vh;

// ---- injected faults of read(2): the k-th call on a file fails with some errno, or every call delivers less than it could
static std::atomic<int> fault_mode{0}, fault_errno{0}; static std::atomic<long long> fault_at{0}, injected{0};
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
#define HAVE_READ_FAULTS 1
extern "C" ssize_t read(int fd, void*buf, size_t n){
	if(fault_mode && fd>2){
		if(fault_mode==1){ if(fault_at.fetch_sub(1)<=0){ ++injected; errno=fault_errno; return -1; } if(n>64) n=64; }
		else if(n>3){ n=1+n/3; ++injected; }
	}
	return syscall(SYS_read,fd,buf,n);
}
#else
#define HAVE_READ_FAULTS 0
#endif

struct Fault : std::runtime_error{ Fault():std::runtime_error("injected fault"){} };

static char byte_at(uint64_t salt, uint64_t pos){ return (char)(mix(salt ^ (pos>>3)*0x9e37ull) >> ((pos&7)*8)); }

struct SourceState{
	uint64_t salt=0, total=0, fault_call=~0ull; int policy=0, delay=0; unsigned block=0;
	bool odd_exception=false;
	std::atomic<uint64_t> delivered{0}, calls{0};
	std::atomic<bool> faulted{false}, eof{false};
	std::atomic<int> inside{0};
	std::atomic<const char*> complaint{nullptr};
	Rng rng;
	uint64_t pos=0;
	static void pause(Rng&r, int delay){
		if(delay==0) return;
		unsigned k=r.below(8);
		if(delay==1){ if(k<3) std::this_thread::yield(); }
		else{ if(k==0) usleep(r.below(60)); else if(k<4) std::this_thread::yield(); }
	}
	uint64_t operator()(char*buf, uint64_t n){
		if(inside.fetch_add(1)!=0) complaint="the source was called concurrently";
		pause(rng, delay);
		uint64_t call=calls.fetch_add(1);
		if(n==0){ complaint="the source was asked for zero bytes"; }
		if(call==fault_call){ inside--; faulted=true; if(odd_exception) throw 42; throw Fault(); }
		uint64_t left=total-pos;
		if(left==0){ eof=true; inside--; return 0; }
		uint64_t k=n;
		if(policy==1) k=1;
		else if(policy==2) k=1+rng.below(n);
		else if(policy==3) k= rng.chance(1,2)?n:1;
		else if(policy==4) k= n>1?n-1:1;
		k=std::min(k,left);
		for(uint64_t i=0;i<k;++i) buf[i]=byte_at(salt,pos+i);
		pos+=k; delivered=pos;
		// bytes of the buffer behind the delivered ones may be scribbled on by a source that was offered n bytes
		for(uint64_t i=k;i<n && i<k+4;++i) buf[i]=(char)0xEE;
		pause(rng, delay);
		inside--;
		return k;
	}
};

static unsigned open_fds(){
	unsigned n=0; DIR*d=opendir("/proc/self/fd"); if(!d) return 0;
	while(readdir(d)) ++n;
	closedir(d); return n;
}

static void stream_case(Case&c){
	Rng&r=c.rng;
	auto st=std::make_shared<SourceState>();
	st->salt=r.next(); st->rng=Rng(r.next());
	unsigned block=r.pick({1u,1u,2u,3u,4u,5u,7u,8u,13u,16u,64u,100u,1000u,4096u});
	st->block=block;
	st->policy=r.below(5);
	st->delay = r.chance(1,2)?0:(int)r.below(3);
	uint64_t blocks=r.pick({0ull,1ull,4ull,5ull,6ull,11ull,30ull});
	st->total = block*blocks + r.below(block*3+1);
	if(r.chance(1,20)) st->total=0;
	bool fault=r.chance(1,4);
	if(fault){ st->fault_call=r.below(1+ (st->policy==1? st->total+1 : st->total/block*2+2)); st->odd_exception=r.chance(1,5); }
	uint64_t abandon = r.chance(1,5) ? r.below(20) : ~0ull;   // stop after that many requests
	int sizes=r.below(5);
	int cdelay = r.chance(1,2)?0:(int)r.below(3);
	c.desc=fmt("block %u total %llu policy %d delay %d/%d fault %lld abandon %lld sizes %d", block,(unsigned long long)st->total,st->policy,st->delay,cdelay,(long long)st->fault_call,(long long)abandon,sizes);
	std::unique_ptr<BufferedAsynchronousReader> rd(new BufferedAsynchronousReader([st](char*b, unsigned long long n)->unsigned long long{
		if(n>st->block) st->complaint="the source was asked for more than one block";
		return (*st)(b,n); }, block));
	uint64_t pos=0; const char*last=nullptr; uint64_t last_pos=0; unsigned last_size=0;
	uint64_t h=hcombine(st->salt,0); bool done=false; unsigned after=0, requests=0, nulls=0, thrown=0, moves=0;
	auto recheck=[&]{ // data handed out stays valid until the next request
		for(unsigned i=0;last && i<last_size;++i) VH_REQUIRE(last[i]==byte_at(st->salt,last_pos+i), "byte %llu changed while it was handed out", (unsigned long long)(last_pos+i));
	};
	while(!done){
		if(requests++==abandon) break;
		beat();
		unsigned size;
		switch(sizes){
			case 0: size=r.below(block+1); break;
			case 1: size=1; break;
			case 2: size=block; break;
			case 3: size=r.chance(1,2)?block:r.below(std::min(block,5u)+1); break;
			default: size= block>1? block-(unsigned)r.below(2) : 1; break;
		}
		if(r.chance(1,40)){ // more than a block can be held
			recheck();
			bool threw=false; char*p=nullptr;
			try{ p=rd->read(block+1+r.below(3)); }catch(std::exception&){ threw=true; }
			VH_REQUIRE(threw, "a request larger than the block size did not throw (%p)", (void*)p);
			c.count("oversized requests");
		}
		bool must=r.chance(1,3);
		recheck();
		if(r.chance(1,30)){
			if(r.chance(1,2)){ std::unique_ptr<BufferedAsynchronousReader> n(new BufferedAsynchronousReader(std::move(*rd))); rd=std::move(n); }
			else { std::unique_ptr<BufferedAsynchronousReader> n(new BufferedAsynchronousReader()); *n=std::move(*rd); rd=std::move(n); }
			++moves;
		}
		char*p=nullptr; bool threw=false, expected_exception=false; std::string what;
		bool faulted_before=st->faulted;
		try{ p = must ? rd->read_or_throw(size) : rd->read(size); }
		catch(Fault&){ threw=true; expected_exception=true; }
		catch(int x){ threw=true; expected_exception = (x==42); }
		catch(std::exception&e){ threw=true; what=e.what(); }
		last=nullptr;
		if(threw && expected_exception){
			VH_REQUIRE(st->faulted, "a source failure was reported although the source did not fail");
			++thrown;
			if(++after>3) done=true;
		}else if(threw || p==nullptr){
			if(threw) VH_REQUIRE(must, "read threw: %s", what.c_str()); else VH_REQUIRE(!must, "read_or_throw returned null");
			VH_REQUIRE(!st->faulted || !faulted_before, "the source failed, but the reader reports an ordinary end of the stream");
			VH_REQUIRE(st->eof, "end of stream reported before the source ended");
			VH_REQUIRE(st->total-pos < size, "end of stream reported for a request of %u bytes although %llu bytes are left", size, (unsigned long long)(st->total-pos));
			++nulls;
			uint64_t left=st->total-pos;
			if(left && r.chance(1,2)){ // what is left can still be read
				char*q=rd->read(left);
				VH_REQUIRE(q!=nullptr, "the last %llu bytes cannot be read", (unsigned long long)left);
				for(unsigned i=0;i<left;++i) VH_REQUIRE(q[i]==byte_at(st->salt,pos+i), "wrong byte at %llu", (unsigned long long)(pos+i));
				pos+=left; c.count("tails read after a short read");
			}
			if(++after>3) done=true;
		}else{
			VH_REQUIRE(pos+size<=st->delivered, "%u bytes returned, but the source delivered only %llu of them", size,(unsigned long long)(st->delivered-pos));
			for(unsigned i=0;i<size;++i) VH_REQUIRE(p[i]==byte_at(st->salt,pos+i), "wrong byte at stream position %llu (request of %u)", (unsigned long long)(pos+i), size);
			last=p; last_pos=pos; last_size=size; pos+=size;
			if(size==0 && ++after>2000) done=true;
			c.count("bytes checked", size);
		}
		SourceState::pause(r, cdelay);
		h=hcombine(h,(uint64_t)size<<20 | st->delivered);
		VH_REQUIRE(st->complaint==nullptr, "%s", st->complaint.load());
	}
	recheck();
	if(done && !thrown && !st->faulted && abandon==~0ull && sizes!=2 && sizes!=4 && nulls) c.count("streams read to the end");
	if(r.chance(1,2)) *rd = BufferedAsynchronousReader();   // destruction by assignment
	rd.reset();
	VH_REQUIRE(st->inside==0, "the source is still being called after the reader was destroyed");
	uint64_t calls=st->calls; SourceState::pause(r,2);
	VH_REQUIRE(st->calls==calls, "the source is called after the reader was destroyed");
	c.count("requests",requests); c.count("short reads",nulls); c.count("source failures reported",thrown); c.count("moves",moves);
	if(abandon!=~0ull) c.count("abandoned readers");
	if(st->faulted) c.count("source failures injected");
	if(requests>3 && st->total>0) c.nontrivial(h);
	c.sample(c.desc+fmt(" -> %u requests, %llu source calls", requests,(unsigned long long)calls));
}

static void file_body(Case&c){
	Rng&r=c.rng;
	std::string a=c.scratch+"/a", b=c.scratch+"/b";
	uint64_t salt=r.next(); uint64_t na=r.pick({0ull,1ull,100ull,5000ull,70000ull})+r.below(50), nb=r.below(300);
	auto wr=[&](const std::string&f, uint64_t n, uint64_t s){ FILE*o=fopen(f.c_str(),"wb"); for(uint64_t i=0;i<n;++i) fputc((unsigned char)byte_at(s,i),o); fclose(o); };
	wr(a,na,salt); wr(b,nb,salt+1);
	c.desc=fmt("files of %llu and %llu bytes",(unsigned long long)na,(unsigned long long)nb);
	{
		FileDataSource x(a), y, z(b.c_str());
		VH_EQ(x.size(),na,"size of an open file"); VH_EQ(y.size(),0ull,"size of a closed source"); VH_EQ(z.size(),nb,"size");
		std::vector<char> buf(na+10); uint64_t got=0;
		auto drain=[&](FileDataSource&s){ got=0; for(;;){ unsigned long long k=s.read(buf.data()+got, buf.size()-got); if(k==0) break; got+=k; } };
		drain(x); VH_EQ(got,na,"bytes read");
		for(uint64_t i=0;i<na;++i) VH_REQUIRE(buf[i]==byte_at(salt,i), "byte %llu",(unsigned long long)i);
		x.rewind(); drain(x); VH_EQ(got,na,"bytes read after rewind"); VH_EQ(x.size(),na,"size at the end of the file");
		y=std::move(x); y.rewind(); drain(y); VH_EQ(got,na,"bytes read after a move"); VH_EQ(x.size(),0ull,"moved-from");
		z=std::move(y); VH_EQ(z.size(),na,"size after moving onto an open source"); z.rewind();   // must not leak b's descriptor
		FileDataSource w(std::move(z)); w.rewind();
		if(r.chance(1,2)){ w.open(b); VH_EQ(w.size(),nb,"size after opening another file"); std::swap(na,nb); salt=salt+1; }
		{
			BufferedAsynchronousReader rd(w.get_read_function_object(), 1+r.below(300)); uint64_t pos=0;
			for(;;){ char*p=rd.read(1); if(!p) break; VH_REQUIRE(p[0]==byte_at(salt,pos),"byte %llu through the reader",(unsigned long long)pos); ++pos; }
			VH_EQ(pos,na,"bytes through the reader");
		}
		w.rewind();
		if(na<2000){
			BufferedAsynchronousReader rd(w); uint64_t pos=0;
			for(;;){ char*p=rd.read(1); if(!p) break; VH_REQUIRE(p[0]==byte_at(salt,pos),"byte %llu through the reader",(unsigned long long)pos); ++pos; }
			VH_EQ(pos,na,"bytes through the reader");
		}
		bool threw=false; try{ w.open(c.scratch+"/does_not_exist"); }catch(std::exception&){ threw=true; }
		VH_REQUIRE(threw,"opening a missing file did not throw"); VH_EQ(w.size(),na,"a failed open changed the source");
		threw=false; try{ FileDataSource q(c.scratch+"/does_not_exist"); }catch(std::exception&){ threw=true; } VH_REQUIRE(threw,"opening a missing file did not throw");
		FileDataSource dir(c.scratch); threw=false; char t[4];
		try{ BufferedAsynchronousReader rd(dir.get_read_function_object(),4); rd.read(4); }catch(std::exception&){ threw=true; } VH_REQUIRE(threw,"a read error of the file was not reported");
		threw=false; try{ dir.read(t,4); }catch(std::exception&){ threw=true; } VH_REQUIRE(threw,"a read error of the file was not reported");
		w.close(); VH_EQ(w.size(),0ull,"closed");
		threw=false; try{ w.read(t,4); }catch(std::exception&){ threw=true; } VH_REQUIRE(threw,"reading a closed source did not throw");
	}
	if(HAVE_READ_FAULTS && na>0){ // the device fails in the middle of the file
		for(int how=0;how<3;++how){
			FileDataSource s(a); uint64_t len=s.size(); std::vector<char> buf(len+10), ref; bool threw=false; uint64_t pos=0; unsigned calls=r.below(len/64+2);
			{ FILE*f=fopen(a.c_str(),"rb"); int ch; while((ch=fgetc(f))!=EOF) ref.push_back((char)ch); fclose(f); }
			injected=0; fault_at=calls; fault_errno=r.pick({EIO,ENXIO,EBADF,EFAULT,EINVAL,ENOMEM}); bool short_only=how==2&&r.chance(1,2); fault_mode=short_only?2:1;
			try{
				if(how==0) for(;;){ auto k=s.read(buf.data()+pos,buf.size()-pos); VH_REQUIRE(k<=buf.size()-pos,"a read returned %llu bytes of at most %llu",(unsigned long long)k,(unsigned long long)(buf.size()-pos)); if(k==0) break; for(uint64_t i=0;i<k;++i) VH_REQUIRE(buf[pos+i]==ref[pos+i],"byte %llu",(unsigned long long)(pos+i)); pos+=k; }
				else{ BufferedAsynchronousReader rd(s.get_read_function_object(),1+r.below(300)); for(;;){ char*p=rd.read(1); if(!p) break; VH_REQUIRE(pos<len&&p[0]==ref[pos],"byte %llu through the reader",(unsigned long long)pos); ++pos; } }
			}catch(Violation&){ fault_mode=0; throw; }catch(std::exception&){ threw=true; }
			fault_mode=0;
			if(short_only){ VH_REQUIRE(!threw,"short reads were reported as a failure"); VH_EQ(pos,len,"bytes through the reader with short reads"); c.count("short file reads"); }
			else if(injected>0){ VH_REQUIRE(threw,"a read error (errno %d) in the middle of the file was not reported",(int)fault_errno); c.count("file read errors injected"); }
			else VH_EQ(pos,len,"bytes read");
		}
	}
	if(r.chance(1,3)){ // a pipe delivers its bytes in the pieces in which they are written
		std::string p=c.scratch+"/pipe"; uint64_t n=r.pick({0ull,1ull,700ull,9000ull})+r.below(100), ps=r.next(), wseed=r.next(); unlink(p.c_str()); VH_REQUIRE(mkfifo(p.c_str(),0600)==0,"cannot make a pipe");
		std::thread w([&]{ Rng q(wseed); int fd=open(p.c_str(),O_WRONLY); std::vector<char> d(n); for(uint64_t i=0;i<n;++i) d[i]=byte_at(ps,i); for(uint64_t i=0;i<n;){ uint64_t k=std::min<uint64_t>(n-i,1+q.below(q.chance(1,2)?4:900)); ssize_t z=write(fd,d.data()+i,k); if(z<=0) break; i+=z; if(q.chance(1,8)) SourceState::pause(q,1); } close(fd); });
		std::string bad; uint64_t pos=0;
		try{ FileDataSource s(p); BufferedAsynchronousReader rd(s.get_read_function_object(),1+r.below(300)); for(;;){ char*x=rd.read(1); if(!x) break; if(pos>=n||*x!=byte_at(ps,pos)){ bad=fmt("byte %llu of %llu through a pipe",(unsigned long long)pos,(unsigned long long)n); break; } ++pos; } if(!bad.empty()) while(rd.read(1)); }
		catch(std::exception&e){ bad=fmt("reading a pipe failed: %s",e.what()); }
		w.join(); unlink(p.c_str()); VH_REQUIRE(bad.empty(),"%s",bad.c_str()); VH_EQ(pos,n,"bytes through a pipe"); c.count("pipes");
	}
	c.count("file sources"); c.nontrivial(hcombine(na,nb));
}
static void file_case(Case&c){
	unsigned f0=open_fds(); file_body(c); unsigned f1=open_fds();
	if(f0!=f1){ // a leak repeats itself
		for(int i=0;i<3;++i) file_body(c);
		unsigned f2=open_fds(); VH_REQUIRE(f2<f1+3,"descriptors leaked: %u, %u and after three more rounds %u",f0,f1,f2);
	}
}

// a sparse file of more than 4 GB; the marks at its end have to arrive at the right place
static void huge_case(Case&c){
	Rng&r=c.rng; const uint64_t chunk=4096, n=(1ull<<32)+chunk*(1+r.below(200)); std::string fn=c.scratch+"/h"; c.desc=fmt("sparse file of %llu bytes",(unsigned long long)n); std::set<uint64_t> mark={0,n-1,(1ull<<32)-1,1ull<<32,1ull<<31}; for(int i=0;i<20;++i) mark.insert(r.below(n));
	{ FILE*f=fopen(fn.c_str(),"wb"); VH_REQUIRE(f,"cannot write"); for(auto x:mark){ fseeko(f,(off_t)x,SEEK_SET); fputc(1,f); } fclose(f); }
	FileDataSource s(fn); VH_EQ((uint64_t)s.size(),n,"size of a file beyond 4 GB"); unsigned block=r.pick({1u<<16,1u<<20,3u<<20}); uint64_t pos=0; std::set<uint64_t> seen;
	{ BufferedAsynchronousReader rd(s.get_read_function_object(),block); for(;;){ const uint64_t k=chunk; char*p=rd.read(k); if(!p) break; for(uint64_t i=0;i<k;){ if(i+8<=k){ uint64_t w; memcpy(&w,p+i,8); if(!w){ i+=8; continue; } } if(p[i]) seen.insert(pos+i); ++i; } pos+=k; if(pos%(64<<20)<k) beat(); } }
	unlink(fn.c_str()); VH_EQ(pos,n,"bytes of a file beyond 4 GB through the reader"); VH_REQUIRE(seen==mark,"%zu marks at the right places instead of %zu",seen.size(),mark.size());
	c.count("files beyond 4 GB"); c.nontrivial(n);
}

void vh_case(Case&c){
	if(c.large(9999)){ huge_case(c); return; }
	if(c.idx%12==11) file_case(c);
	else stream_case(c);
}
