// Shared plumbing of the drivers: case addressing, failure reports, crash
// attribution, hostile input placement, instrumented allocator.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <new>
#include <mutex>
#include <stdexcept>
#include <csignal>
#include <clocale>
#include <sys/mman.h>
#include <sys/time.h>
#include <fcntl.h>
#include <unistd.h>

namespace h {
using std::string;
typedef std::uint64_t u64;
typedef std::uint32_t u32;

// ---- properties as bits
inline constexpr u32 C(int n){ return u32(1)<<n; }
inline string tag_names(u32 m){
    string r; char b[8];
    for(int i=1;i<32;++i) if(m&C(i)){ std::snprintf(b,sizeof b,"C%02d",i); if(!r.empty()) r+=','; r+=b; }
    return r; }

// ---- random numbers: the same on every platform and compiler
struct Rng {
    u64 s;
    explicit Rng(u64 x): s(x) {}
    u64 next(){ u64 z=(s+=0x9E3779B97F4A7C15ull);
        z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31); }
    u32 below(u32 n){ return n? u32((next()>>11)%n) : 0; }
    bool chance(u32 pct){ return below(100)<pct; }
    template<class T> T const& pick(std::vector<T> const& v){ return v[below(u32(v.size()))]; }
    char pick(char const* s){ return s[below(u32(std::strlen(s)))]; }
};
inline u64 mix(u64 a,u64 b){ Rng r(a*0x9E3779B97F4A7C15ull^b); r.next(); return r.next(); }
inline u64 hash_bytes(u64 h0,char const* p,std::size_t n){
    u64 h1=h0^0xcbf29ce484222325ull;
    for(std::size_t i=0;i<n;++i){ h1^=static_cast<unsigned char>(p[i]); h1*=0x100000001b3ull; }
    return h1^(h1>>29); }
inline u64 hash_str(u64 h0,string const& s){ return hash_bytes(mix(h0,s.size()),s.data(),s.size()); }

inline string esc(string const& s, std::size_t max=400){
    string r="\""; char b[8];
    for(std::size_t i=0;i<s.size();++i){
        if(i==max){ std::snprintf(b,sizeof b,"..."); r+=b; break; }
        unsigned char c=static_cast<unsigned char>(s[i]);
        if(c=='\\'||c=='"'){ r+='\\'; r+=char(c); }
        else if(c<32||c>126){ std::snprintf(b,sizeof b,"\\x%02x",c); r+=b; }
        else r+=char(c);
    }
    r+='"';
    if(s.size()>max) r+="("+std::to_string(s.size())+" bytes)";
    return r; }

// ---- shared with the orchestrator: which case and which call is in progress
struct Shared { u64 magic; u64 idx; u32 tags; u32 pad; char what[2000]; };
struct Ctx {
    Shared* sh=nullptr;
    FILE* out=stdout;
    unsigned char* bitmap=nullptr; u64 bits=0;
    u64 seed=1, idx=0;
    string mode;
    u64 fails=0, evals=0, nontriv=0, workload=0;
    u64 events[32]={};
    std::map<string,u64> stat;
    std::vector<string> samples;
    u64 fail_cap=40; std::map<u32,u64> per_tag;
    u32 outer=0;               // properties at stake in whatever runs now, see Outer
};
inline Ctx& ctx(){ static Ctx c; return c; }

// worker threads of the concurrency driver do not touch the shared bookkeeping
inline bool& quiet(){ static thread_local bool q=false; return q; }
inline void phase(u32 tags,char const* what){
    if(quiet()) return;
    if(tags) ++ctx().events[10];          // a stretch of library code under the crash monitors
    Shared* s=ctx().sh; if(!s) return;
    s->tags=tags? tags|ctx().outer : 0; std::strncpy(s->what,what,63); s->what[63]=0; }
// while an object produced by an operation is examined, a crash is also a failure of that operation
struct Outer { u32 old; explicit Outer(u32 t): old(ctx().outer) { if(!quiet()) ctx().outer|=t; } ~Outer(){ if(!quiet()) ctx().outer=old; } };
inline void describe(string const& s){
    if(quiet()) return;
    Shared* sh=ctx().sh; if(!sh) return;
    std::size_t n=s.size()<sizeof(sh->what)-80? s.size() : sizeof(sh->what)-80;
    std::memcpy(sh->what+64,s.data(),n); sh->what[64+n]=0; }

inline void fail(u32 tags,string const& msg){
    static std::mutex mx; std::lock_guard<std::mutex> lk(mx);
    Ctx& c=ctx(); ++c.fails;
    if(++c.per_tag[tags]>c.fail_cap) return;
    std::fprintf(c.out,"FAIL\t%s\t%llu\t%s\n",tag_names(tags).c_str(),(unsigned long long)c.idx,msg.c_str());
    std::fflush(c.out); }
inline void ev(u32 tags){ if(quiet()) return; Ctx& c=ctx(); for(int i=1;i<32;++i) if(tags&C(i)) ++c.events[i]; }
inline void ev1(int n){ if(!quiet()) ++ctx().events[n]; }
inline void count_case(u64 hash,bool nontrivial){
    if(quiet()) return;
    Ctx& c=ctx(); ++c.evals; c.workload+=hash;
    if(!nontrivial) return;
    ++c.nontriv;
    if(c.bitmap){ u64 b=hash%c.bits; __atomic_fetch_or(&c.bitmap[b>>3],(unsigned char)(1u<<(b&7)),__ATOMIC_RELAXED); } }
inline void sample(string const& s){ Ctx& c=ctx(); if(c.samples.size()<6) c.samples.push_back(s); }

// ---- watchdog on CPU time: a case that burns seconds is a hang
inline void on_prof(int){ static char const m[]="HANG\n"; (void)!write(2,m,sizeof m-1); _exit(77); }
inline void arm(int sec){
    itimerval t; std::memset(&t,0,sizeof t); t.it_value.tv_sec=sec;
    setitimer(ITIMER_PROF,&t,nullptr); }

// ---- hostile placement of an input string: read-only for the library, its last
// ---- (or first) byte against an inaccessible page, not NUL-terminated
struct Arena_ro {
    static constexpr std::size_t P=4096;
    std::size_t cap; char* rw; char* ro; std::size_t top=0; bool exact; string keep;
    std::vector<char*> heap;
    explicit Arena_ro(std::size_t pages=512){
        cap=pages*P;
        int fd=memfd_create("in",0);
        if(fd<0||ftruncate(fd,long(cap))) { std::perror("memfd"); std::_Exit(3); }
        rw=(char*)mmap(nullptr,cap,PROT_READ|PROT_WRITE,MAP_SHARED,fd,0);
        char* r=(char*)mmap(nullptr,cap+2*P,PROT_NONE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0);
        ro=(char*)mmap(r+P,cap,PROT_READ,MAP_SHARED|MAP_FIXED,fd,0);
        if(rw==MAP_FAILED||ro==MAP_FAILED){ std::perror("mmap"); std::_Exit(3); }
        std::memset(rw,'%',cap);   // whatever follows looks like an escape
        close(fd);
    }
    ~Arena_ro(){ munmap(rw,cap); munmap(ro-P,cap+2*P); }
    // at the end of the region (overrun faults) or at its start (underrun faults)
    char const* put(string const& s,bool at_end){
        if(s.size()>cap){ keep=s; return keep.data(); }
        std::size_t off=at_end? cap-s.size() : 0;
        std::memcpy(rw+off,s.data(),s.size());
        return ro+off; }
    void scrub(string const& s,bool at_end){
        if(s.size()>cap) return;
        std::memset(rw+(at_end? cap-s.size() : 0),'%',s.size()); }
};
inline Arena_ro& ro(){ static thread_local Arena_ro a; return a; }

// ---- instrumented allocator
struct Heap {
    std::map<void*,std::size_t> live;
    u64 allocs=0, deallocs=0, bytes=0;
    long fail_in=-1;            // fail the k-th allocation from now (0 = next)
    u64 injected=0, over=0;
    unsigned char fill=0xCD;
    std::size_t max=std::size_t(-1)/4;
    string error;
    ~Heap(){ for(auto& e: live) std::free(e.first); }
    void* get(std::size_t n){
        if(fail_in>=0&&fail_in--==0){ ++injected; throw std::bad_alloc(); }
        if(n>max){ ++over; throw std::bad_alloc(); }
        void* p=std::malloc(n? n : 1);
        if(!p) throw std::bad_alloc();
#ifndef LEAVE_UNDEFINED
        std::memset(p,fill,n);
#endif
        live[p]=n; ++allocs; bytes+=n;
        return p; }
    void put(void* p,std::size_t n){
        ++deallocs;
        auto it=live.find(p);
        if(it==live.end()){ error="deallocate of a block that is not live"; return; }
        if(it->second!=n) error="deallocate with size "+std::to_string(n)+", allocated "+std::to_string(it->second);
        std::memset(p,0xDD,it->second);
        std::free(p); live.erase(it); }
};
inline Heap& default_heap(){ static Heap x; return x; }
template<class T>
struct TrackAlloc {
    typedef T value_type;
    Heap* hp;
    TrackAlloc() noexcept: hp(&default_heap()) {}
    explicit TrackAlloc(Heap& x) noexcept: hp(&x) {}
    template<class U> TrackAlloc(TrackAlloc<U> const& o) noexcept: hp(o.hp) {}
    T* allocate(std::size_t n){ return static_cast<T*>(hp->get(n*sizeof(T))); }
    void deallocate(T* p,std::size_t n) noexcept { hp->put(p,n*sizeof(T)); }
    std::size_t max_size() const noexcept { return hp->max/sizeof(T); }
    template<class U> bool operator==(TrackAlloc<U> const& o) const noexcept { return hp==o.hp; }
    template<class U> bool operator!=(TrackAlloc<U> const& o) const noexcept { return hp!=o.hp; }
};

// ---- count of global operator new calls by this thread (drivers that define COUNT_NEW)
extern thread_local u64 g_news, g_mallocs;

// ---- driver main loop: run cases first, first+step, ... < count
typedef void (*case_fn)(u64 idx);
struct Mode { char const* name; case_fn fn; void (*init)(); };

inline void finish(){
    Ctx& c=ctx();
    std::fprintf(c.out,"STAT\tevaluations\t%llu\nSTAT\tnontrivial\t%llu\nSTAT\tfails\t%llu\n",
        (unsigned long long)c.evals,(unsigned long long)c.nontriv,(unsigned long long)c.fails);
    for(int i=1;i<32;++i) if(c.events[i]) std::fprintf(c.out,"EVENT\tC%02d\t%llu\n",i,(unsigned long long)c.events[i]);
    for(auto& e: c.stat) std::fprintf(c.out,"STAT\t%s\t%llu\n",e.first.c_str(),(unsigned long long)e.second);
    std::fprintf(c.out,"WORK\t%llu\n",(unsigned long long)c.workload);
    for(auto& s: c.samples) std::fprintf(c.out,"SAMPLE\t%s\n",s.c_str());
    std::fprintf(c.out,"DONE\n"); std::fflush(c.out); }

// argv: mode seed first step count out shared bitmap
inline int run(int argc,char** argv,std::vector<Mode> const& modes){
    if(argc<6){ std::fprintf(stderr,"usage: mode seed first step count [out [shared [bitmap]]]\n"); return 3; }
    Ctx& c=ctx();
    c.mode=argv[1]; c.seed=std::strtoull(argv[2],nullptr,0);
    u64 first=std::strtoull(argv[3],nullptr,0), step=std::strtoull(argv[4],nullptr,0), count=std::strtoull(argv[5],nullptr,0);
    if(argc>6&&std::strcmp(argv[6],"-")) c.out=std::fopen(argv[6],"a");
    if(!c.out) return 3;
    if(argc>7){
        int fd=open(argv[7],O_RDWR|O_CREAT,0600);
        if(fd<0||ftruncate(fd,sizeof(Shared))) return 3;
        c.sh=(Shared*)mmap(nullptr,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED,fd,0); close(fd);
    } else { static Shared local; c.sh=&local; }
    if(argc>8){
        int fd=open(argv[8],O_RDWR);
        off_t n=fd<0? 0 : lseek(fd,0,SEEK_END);
        if(n>0){ c.bitmap=(unsigned char*)mmap(nullptr,std::size_t(n),PROT_READ|PROT_WRITE,MAP_SHARED,fd,0); c.bits=u64(n)*8; close(fd); }
    }
    c.sh->magic=0x55524c; c.sh->what[0]=0; c.sh->tags=0;
    signal(SIGPROF,on_prof);
    if(char const* l=std::getenv("VERIF_LOCALE")) c.stat[string(std::setlocale(LC_ALL,l)? "shards under locale " : "locale not available: ")+l]++;
    for(auto& m: modes) if(c.mode==m.name){
        if(m.init) m.init();
        for(u64 i=first;i<count;i+=step){
            c.idx=i; c.sh->idx=i; c.sh->tags=0; c.sh->what[0]=0; c.sh->what[64]=0;
            if(i==first||(i/step)%64==0||step>=count) arm(20);
            m.fn(i);
        }
        arm(0);
        c.sh->magic=0;
        finish();
        return 0;
    }
    std::fprintf(stderr,"no mode %s\n",c.mode.c_str());
    return 3; }

} // h
