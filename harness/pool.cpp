// Static pools: a shadow map of every block handed out (C19), and URLs and
// strings living in a pool.
#include "news.hpp"
#include "ops.hpp"
#include <cstddef>
#include <type_traits>
using namespace h;
typedef urls::basic_static_pool Pool;
typedef Pool::allocator_type<char> PA;
typedef urls::basic_url<PA> Url;
static u32 const T=C(19);
static string trail;
static void note(string const& s){ trail+=(trail.empty()?"":" ; ")+s; if(trail.size()>1500) trail="... "+trail.substr(trail.size()-1400); describe(trail); }

struct Block { char* p; std::size_t n; unsigned char pat; bool live; void (*release)(PA const&,char*,std::size_t); std::size_t count; };
struct Shadow {
    char* base; std::size_t size; std::vector<Block> v; char* top;
    void fill(){ for(auto& b: v) if(b.live) std::memset(b.p,b.pat,b.n); }
    bool got(char* p,std::size_t n,std::size_t align,string const& what){
        ev(T);
        if(p<base||p>base+size||n>size||p+n>base+size){ fail(T|C(10),trail+": "+what+": block at offset "+std::to_string(p-base)+" of "+std::to_string(n)+" bytes is outside the pool of "+std::to_string(size)); return false; }
        if(reinterpret_cast<std::uintptr_t>(p)%align){ fail(T,trail+": "+what+": block at offset "+std::to_string(p-base)+" is not aligned to "+std::to_string(align)); return false; }
        for(auto& b: v) if(b.live&&n&&b.n&&p<b.p+b.n&&b.p<p+n){ fail(T,trail+": "+what+": block at offset "+std::to_string(p-base)+" overlaps the one at "+std::to_string(b.p-base)); return false; }
        Block b{p,n,static_cast<unsigned char>(v.size()*37+1),true,nullptr,0}; v.push_back(b); std::memset(p,b.pat,n);
        if(p+n>top) top=p+n;
        return true; }
    // does it certainly fit behind everything handed out so far?
    bool fits(std::size_t count,std::size_t sz,std::size_t align) const {
        if(sz&&count>(std::size_t(-1)/sz)) return false;
        std::uintptr_t const t=reinterpret_cast<std::uintptr_t>(top), e=reinterpret_cast<std::uintptr_t>(base)+size;
        std::uintptr_t const a=(t+align-1)/align*align;
        return a<=e&&count*sz<=e-a; }
    bool intact(){
        for(auto& b: v) if(b.live) for(std::size_t i=0;i<b.n;++i) if(static_cast<unsigned char>(b.p[i])!=b.pat){ fail(T,trail+": the contents of an earlier block changed"); return false; }
        return true; }
};
template<std::size_t N> struct Odd { char c[N]; };
template<std::size_t A> struct alignas(A) Al { char c[A]; };
template<class U> void give_back(PA const& a,char* p,std::size_t n){ Pool::allocator_type<U> al(a); al.deallocate(reinterpret_cast<U*>(p),n); }
template<class U> bool one(PA const& a,Shadow& s,std::size_t n,bool release){
    string const what="allocate "+std::to_string(n)+" x "+std::to_string(sizeof(U))+" aligned "+std::to_string(alignof(U));
    note(what);
    Pool::allocator_type<U> al(a);
    bool const fits=s.fits(n,sizeof(U),alignof(U));
    phase(T,"pool allocate");
    try {
        U* p=al.allocate(n);
        phase(0,"");
        ctx().stat["granted"]++;
        if(n>std::size_t(-1)/sizeof(U)){ fail(T,trail+": a request larger than the address space was granted"); return false; }
        if(!s.got(reinterpret_cast<char*>(p),n*sizeof(U),alignof(U),what)) return false;
        s.v.back().release=&give_back<U>; s.v.back().count=n;
        if(release){ note("deallocate"); phase(T,"pool deallocate"); al.deallocate(p,n); s.v.back().live=false; phase(0,""); }
    } catch(std::bad_alloc const&){
        phase(0,""); ev(T);
        ctx().stat["refused"]++;
        if(fits){ fail(T,trail+": refused although "+std::to_string(s.base+s.size-s.top)+" bytes are free"); return false; }
    } catch(std::exception const& e){ fail(T,trail+": threw "+e.what()); return false; }
    return true; }
static bool dispatch(int k,PA const& a,Shadow& s,std::size_t n,bool rel){
    switch(k){
    case 0: return one<char>(a,s,n,rel); case 1: return one<short>(a,s,n,rel); case 2: return one<int>(a,s,n,rel); case 3: return one<double>(a,s,n,rel);
    case 4: return one<long double>(a,s,n,rel); case 5: return one<Odd<3>>(a,s,n,rel); case 6: return one<Odd<7>>(a,s,n,rel); case 7: return one<Al<32>>(a,s,n,rel); case 8: return one<Al<64>>(a,s,n,rel);
    case 9: return one<Odd<1000>>(a,s,n,rel); case 11: return one<Al<256>>(a,s,n,rel); case 12: return one<Al<4096>>(a,s,n,rel); default: return one<std::max_align_t>(a,s,n,rel); } }
static std::size_t const TSZ[]={1,2,4,8,16,3,7,32,64,1000,sizeof(std::max_align_t),256,4096};

struct Guarded { // a buffer inside a zone whose bytes must not change
    std::vector<char> z; std::size_t off,n;
    Guarded(std::size_t off_,std::size_t n_): z(256+off_+n_+256,char(0xA5)), off(0), n(n_) {
        std::uintptr_t const b=reinterpret_cast<std::uintptr_t>(z.data()); off=128+(64-b%64)%64+off_; }
    char* p(){ return z.data()+off; }
    bool ok() const { for(std::size_t i=0;i<z.size();++i) if((i<off||i>=off+n)&&z[i]!=char(0xA5)) return false; return true; } };

// ---- exhaustive: small pools x base misalignment x pairs of requests
static std::size_t const CNT[]={0,1,2,3,std::size_t(-1),std::size_t(-1)/2+2};
static u64 small_total(){ return 25u*16*7*6*7*6; }
static void case_small(u64 idx){
    u64 v=idx; std::size_t const n=v%25; v/=25; std::size_t const off=v%16; v/=16;
    int const k1=int(v%7); v/=7; std::size_t const c1=CNT[v%6]; v/=6; int const k2=int(v%7); v/=7; std::size_t const c2=CNT[v%6];
    Guarded gz(off,n); trail.clear(); note("pool of "+std::to_string(n)+" at alignment "+std::to_string(off));
    Pool pool(gz.p(),n); Shadow s{gz.p(),n,{},gz.p()};
    PA a=pool.allocator();
    count_case(mix(5,idx),true);
    if(dispatch(k1,a,s,c1,false)&&dispatch(k2,a,s,c2,false)) dispatch(0,a,s,1,false);
    s.intact();
    if(!gz.ok()) fail(T|C(10),trail+": bytes outside the pool changed");
    if(idx%100003==5) sample(trail); }

// ---- every object size, counts around every point where count * size wraps around
typedef bool (*OneFn)(PA const&,Shadow&,std::size_t,bool);
struct Shape { OneFn f; std::size_t size; };
template<std::size_t A,std::size_t K> struct alignas(A) Cell { char c[A*K]; };
template<std::size_t A,std::size_t K> struct Shapes { static void add(std::vector<Shape>& v){ Shapes<A,K-1>::add(v); v.push_back(Shape{&one<Cell<A,K>>,sizeof(Cell<A,K>)}); } };
template<std::size_t A> struct Shapes<A,0> { static void add(std::vector<Shape>&){} };
static std::vector<Shape> const& shapes(){ static std::vector<Shape> v; if(v.empty()){ Shapes<1,72>::add(v); Shapes<2,24>::add(v); Shapes<4,24>::add(v); Shapes<8,40>::add(v); Shapes<16,24>::add(v); Shapes<64,6>::add(v); } return v; }
static u32 const WPTS=9, WOFF=9, WFILL=4;
static u64 wrap_total(){ return u64(shapes().size())*WPTS*WOFF*WFILL; }
static void case_wrap(u64 idx){
    u64 v=idx; Shape const sh=shapes()[v%shapes().size()]; v/=shapes().size(); u64 const pt=v%WPTS; v/=WPTS; long const d=long(v%WOFF)-4; v/=WOFF; std::size_t const fill=std::size_t(v%WFILL)*5;
    // the pt-th multiple of 2^64 / size, 2^63 / size, 2^32 / size, or what the pool has room for
    std::size_t const mx=std::size_t(-1); std::size_t n;
    if(pt<4) n=mx/sh.size*(pt+1)+(pt? (mx%sh.size+1)*(pt+1)/sh.size : 0); else if(pt==4) n=mx/2/sh.size; else if(pt==5) n=std::size_t(0xffffffffu)/sh.size; else if(pt==6) n=std::size_t(0x7fffffffu)/sh.size; else if(pt==7) n=std::size_t(0xffffu)/sh.size; else n=std::size_t(333)/sh.size;
    n+=std::size_t(d); if(d<0&&n>mx-8) n=0;
    Guarded gz(fill%3,333); trail.clear(); note("pool of 333"); Pool pool(gz.p(),333); Shadow s{gz.p(),333,{},gz.p()}; PA a=pool.allocator();
    count_case(mix(6,idx),true);
    if(dispatch(0,a,s,fill,false)&&sh.f(a,s,n,false)&&sh.f(a,s,1,false)) dispatch(0,a,s,1,false);
    s.intact(); if(!gz.ok()) fail(T|C(10),trail+": bytes outside the pool changed");
    if(idx%10007==5) sample(trail); }

// ---- random sequences
template<class P> void sequence(Rng& g,P& pool,Shadow& s){
    PA a=pool.allocator();
    u32 const m=1+g.below(20);
    for(u32 i=0;i<m;++i){
        int const k=int(g.below(13)); std::size_t n;
        u32 const c=g.below(10); std::size_t const rest=std::size_t(s.base+s.size-s.top);
        if(c<5) n=g.below(6); else if(c<7) n=rest/TSZ[k]; else if(c==7) n=rest/TSZ[k]+1; else if(c==8) { n=std::size_t(-1)/TSZ[k]-g.below(3); n+=g.below(3); } else n=std::size_t(g.next());
        PA b=a; if(g.chance(50)){ Pool::allocator_type<double> d(a); b=PA(d); ev(T); if(!(b==a)||b!=a||!(d==a)) fail(T,"allocators of one pool compare unequal"); }
        if(!dispatch(k,b,s,n,g.chance(20))) return;
        if(!s.v.empty()&&g.chance(25)){ // give back any earlier block: the others stay as they are
            Block& x=s.v[g.below(u32(s.v.size()))];
            if(x.live&&x.release){ note("deallocate the block at "+std::to_string(x.p-s.base)); phase(T,"pool deallocate"); x.release(a,x.p,x.count); x.live=false; phase(0,""); ctx().stat["earlier blocks given back"]++; if(!s.intact()) return; } }
    }
    s.intact(); }
struct Go { Rng& g; template<class P> void operator()(P* pool,std::size_t n) const { note("static_pool<"+std::to_string(n)+">"); Shadow s{reinterpret_cast<char*>(pool),sizeof *pool,{},nullptr}; 
            // the first block of chars shows where the buffer starts
            PA a=pool->allocator(); char* p=nullptr; try { p=a.allocate(1); } catch(std::bad_alloc const&){ fail(T,trail+": the first byte was refused"); return; }
            if(p<s.base||p>=s.base+s.size){ fail(T,trail+": first block outside the pool object"); return; }
            s.base=p; s.size=n; s.top=p+1; if(p+n>reinterpret_cast<char*>(pool)+sizeof *pool){ fail(T,trail+": the buffer is smaller than announced"); return; }
            sequence(g,*pool,s); } };
static void case_seq(u64 idx){
    Rng g(mix(mix(ctx().seed,0x71),idx));
    count_case(mix(9,idx),true);
    if(idx%4==3){ // the pool that owns its buffer
        trail.clear();
        Go const go{g};
        switch(g.below(6)){
        case 5: { static thread_local std::aligned_storage<sizeof(urls::static_pool<70001>),64>::type mem; auto* q=new(&mem) urls::static_pool<70001>; go(q,70001); break; }
        case 0: { urls::static_pool<1> p; go(&p,1); break; } case 1: { urls::static_pool<7> p; go(&p,7); break; } case 2: { urls::static_pool<64> p; go(&p,64); break; }
        case 3: { urls::static_pool<333> p; go(&p,333); break; } default: { urls::static_pool<4096> p; go(&p,4096); } }
        return;
    }
    std::size_t const n=g.chance(50)? g.below(100) : g.chance(97)? g.below(3000) : 60000+g.below(80000), off=g.below(64);
    Guarded gz(off,n); trail.clear(); note("pool of "+std::to_string(n)+" at alignment "+std::to_string(off));
    Pool pool(gz.p(),n); Shadow s{gz.p(),n,{},gz.p()};
    sequence(g,pool,s);
    if(!gz.ok()) fail(T|C(10),trail+": bytes outside the pool changed");
    if(idx%997==3) sample(trail.substr(0,300)); }

// ---- a URL in a pool behaves as one on the heap, until the pool is exhausted
static void case_url(u64 idx){
    Rng g(mix(mix(ctx().seed,0x75),idx));
    std::size_t const n=g.chance(50)? g.below(200) : g.below(4000);
    Guarded gz(g.below(16),n); Pool pool(gz.p(),n);
    ref::Url m; string s; do s=g.chance(15)? string() : gen::url(g); while(!ref::parse(s,m));
    trail.clear(); note("pool of "+std::to_string(n)+"; url("+esc(s,200)+")");
    phase(T,"constructor");
    Url* u=nullptr; ev(T);
    try { u=new Url(sv(s.data(),s.size()),pool.allocator()); }
    catch(std::bad_alloc const&){ if(n>=2*s.size()+256) fail(T,trail+": refused"); return; }
    catch(std::exception const& e){ fail(T,trail+": constructor threw "+e.what()); return; }
    std::vector<Url*> more; Url* u2=nullptr; ref::Url m2; parse("s://second/u?x=1#y",m2);
    try { u2=new Url(sv("s://second/u?x=1#y",18),pool.allocator()); } catch(std::bad_alloc const&){}
    for(u32 i=0;i<6;++i){
        Op o=draw(g,m,g.chance(30)); if(o.id==ASSIGN) continue;
        ref::Url w=m; bool const ok=apply(w,o); if(!ok&&(o.id==SEG_ERASE||o.id==SEG_ERASE_RANGE)) continue;
        note(show(o)); phase(T,opname(o.id)); ev(T); long pos; int rc=0; string ex;
        try { call(*u,o,m.segs().size(),g.chance(40),pos); } catch(urls::invalid_part const&){ rc=1; } catch(std::bad_alloc const&){ rc=2; } catch(std::exception const& e){ rc=3; ex=e.what(); }
        phase(0,"");
        count_case(hash_str(hash_str(mix(u64(o.id),n),m.str()),o.a),true);
        ctx().stat[rc==0?"pool URL operations done":rc==2?"pool URL operations refused for space":"pool URL operations rejected"]++;
        if(rc==3){ fail(T,trail+": threw "+ex); break; }
        if(rc!=2&&(rc==0)!=ok){ fail(T,trail+": accepted/rejected differently from a heap URL"); break; }
        if(rc==0) m=w;
        Obs want,got; expected(m,false,want); snap(*u,got);
        if(!(got==want)){ fail(T,trail+(rc==2?": after running out of space":"")+": holds "+esc(got.f[URL])+", expected "+esc(want.f[URL])); break; }
        if(u->size()&&(u->data()<gz.p()||u->data()+u->size()+1>gz.p()+n)){ fail(T|C(10),trail+": the URL's buffer is outside the pool"); break; }
        if(g.chance(30)){ PA al=pool.allocator(); phase(T|C(4),"decode into pool"); try { auto const x=u->query(al); if(string(x.data(),x.size())!=want.f[D_QUERY]) fail(T|C(4),trail+": query(pool allocator) is wrong"); } catch(std::bad_alloc const&){} phase(0,""); }
    }
    if(u2){ Obs want,got; expected(m2,false,want); snap(*u2,got); if(!(got==want)) fail(T,trail+": another URL in the pool changed to "+esc(got.f[URL])); }
    phase(T,"destructor"); delete u; delete u2; phase(0,"");
    if(!gz.ok()) fail(T|C(10),trail+": bytes outside the pool changed");
    if(idx%997==3) sample(trail.substr(0,300)); }

// ---- several pools and several URLs: assignments across them, exhaustion of one does not touch another
static void case_many(u64 idx){
    Rng g(mix(mix(ctx().seed,0x6d79),idx));
    std::size_t const n1=200+g.below(3000), n2=g.below(600);
    Guarded z1(g.below(16),n1), z2(g.below(16),n2); Pool p1(z1.p(),n1), p2(z2.p(),n2);
    trail.clear(); note("pools of "+std::to_string(n1)+" and "+std::to_string(n2)); count_case(mix(11,idx),true);
    { PA a=p1.allocator(), b=p2.allocator(); Pool::allocator_type<int> c(b); ev(T); if(a==b||!(a!=b)||a==c||!(b==c)||b!=c||!(p1.allocator()==a)) fail(T,"allocators of different pools compare wrongly"); }
    struct Item { Url* u; ref::Url m; Guarded* z; }; std::vector<Item> v;
    for(u32 i=0;i<8;++i){
        u32 const k=g.below(10);
        if(v.size()<4&&(k<4||v.empty())){
            Item it; it.z= g.chance(50)? &z1 : &z2; string s; do s=g.chance(15)? string() : gen::url(g); while(!ref::parse(s,it.m));
            note("new url("+esc(s,100)+") in pool "+(it.z==&z1?"1":"2")); phase(T,"constructor"); ev(T);
            try { it.u=new Url(sv(s.data(),s.size()),(it.z==&z1?p1:p2).allocator()); v.push_back(it); } catch(std::bad_alloc const&){} catch(std::exception const& e){ fail(T,trail+": threw "+e.what()); }
        } else if(k<7){
            Item& a=v[g.below(u32(v.size()))]; Item& b=v[g.below(u32(v.size()))];
            note("assign "+std::to_string(&b-&v[0])+" to "+std::to_string(&a-&v[0])); phase(T|C(24),"operator="); ev(T|C(24));
            try { *a.u=*b.u; a.m=b.m; } catch(std::bad_alloc const&){ ctx().stat["assignments refused for space"]++; } catch(std::exception const& e){ fail(T|C(24),trail+": threw "+e.what()); }
        } else {
            Item& a=v[g.below(u32(v.size()))]; Op o=draw(g,a.m,g.chance(30)); if(o.id==ASSIGN) continue;
            ref::Url w=a.m; bool const ok=apply(w,o); if(!ok&&(o.id==SEG_ERASE||o.id==SEG_ERASE_RANGE)) continue;
            note(std::to_string(&a-&v[0])+"."+show(o)); phase(T,opname(o.id)); ev(T); long pos;
            try { call(*a.u,o,a.m.segs().size(),g.chance(40),pos); if(ok) a.m=w; else fail(T|C(8),trail+": accepted"); } catch(urls::invalid_part const&){ if(ok) fail(T|C(8),trail+": rejected"); } catch(std::bad_alloc const&){} catch(std::exception const& e){ fail(T,trail+": threw "+e.what()); }
        }
        phase(0,"");
        for(auto& it: v){ Obs want,got; expected(it.m,false,want); snap(*it.u,got);
            if(!(got==want)){ fail(T,trail+": URL "+std::to_string(&it-&v[0])+" holds "+esc(got.f[URL])+", expected "+esc(want.f[URL])); goto out; }
            if(it.u->size()&&(it.u->data()<it.z->p()||it.u->data()+it.u->size()+1>it.z->p()+it.z->n)){ fail(T|C(10),trail+": the buffer of URL "+std::to_string(&it-&v[0])+" is outside its pool"); goto out; } }
    }
out:
    phase(T,"destructor"); for(auto& it: v) delete it.u; phase(0,"");
    if(!z1.ok()||!z2.ok()) fail(T|C(10),trail+": bytes outside the pools changed");
    if(idx%997==3) sample(trail.substr(0,300)); }

int main(int argc,char** argv){
    if(argc>1&&!std::strcmp(argv[1],"--totals")){ std::printf("small %llu\nwrap %llu\n",(unsigned long long)small_total(),(unsigned long long)wrap_total()); return 0; }
    return run(argc,argv,{{"small",case_small,nullptr},{"wrap",case_wrap,nullptr},{"seq",case_seq,nullptr},{"url",case_url,nullptr},{"many",case_many,nullptr}});
}
