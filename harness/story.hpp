// A search over histories: a story is a URL and a few operations; the ones that show
// something new in the library are kept and varied (guide.hpp), and given to `play`,
// which judges them.  Included by drivers that define Url, Al, trail and note().
#pragma once
#include "guide.hpp"
struct Story { string base; std::vector<Op> ops; guide::Kept kept; };
static int focus_of(u64 idx){ // VERIF_FOCUS narrows the operation a search is about
    char const* const e=std::getenv("VERIF_FOCUS"); if(!e) return int(idx%NOPS);
    std::vector<int> v; for(int i=0;i<NOPS;++i){ bool in=false;
        if(!std::strcmp(e,"assign")) in= i==ASSIGN; else if(!std::strcmp(e,"segments")) in=is_seg(i); else if(!std::strcmp(e,"plain")) in=is_plain(i)&&!is_seg(i); else if(!std::strcmp(e,"setters")) in=is_setter(i);
        if(in) v.push_back(i); }
    return v.empty()? int(idx%NOPS) : v[std::size_t(idx%v.size())]; }
static bool takes_text(int id){ return (id<SEG_ERASE&&id!=NORMALIZE&&id!=NORM_SCHEME&&id!=PORT_U)||id==ASSIGN; }
static u64 guided_execs(){ char const* e=std::getenv("VERIF_EXECS"); return e? std::strtoull(e,nullptr,0) : 3000; }
static void place(Op& o,std::size_t ns){ // positions that exist
    if(!is_seg(o.id)) return;
    if(o.id==SEG_ERASE_RANGE){ if(o.j>ns) o.j=ns; if(o.i>o.j) o.i=o.j; }
    else { std::size_t const n= o.id>=SEG_REP? (ns? ns-1 : 0) : ns; if(o.i>n) o.i=n; } }
// the bare calls: does this story show anything new?
static bool news(Story& s){
    ref::Url m; if(!ref::parse(s.base,m)) return false;
    trail.clear(); note("url("+esc(s.base,300)+")");
    bool erases=false; for(auto& o: s.ops) erases|=o.id==SEG_ERASE||o.id==SEG_ERASE_RANGE;
    guide::begin();
    Heap hp; phase(C(1)|C(2),"constructor"); Url u(sv(s.base.data(),s.base.size()),Al(hp));
    for(auto& o: s.ops){
        std::size_t ns=u.segments().size(); if(erases&&m.segs().size()<ns) ns=m.segs().size();
        if(is_seg(o.id)&&o.id>=SEG_REP&&o.id!=SEG_ERASE_RANGE&&ns==0) continue;
        place(o,ns);
        if(o.id==ASSIGN){ ref::Url t; if(!ref::parse(o.a,t)) continue; }
        if(erases){ ref::Url t=m; if(apply(t,o)) m=t; else if(o.id==SEG_ERASE||o.id==SEG_ERASE_RANGE) continue; }
        note(show(o)); phase(op_tag(o.id)|C(8)|C(7)|C(11)|(is_plain(o.id)?C(5):0),opname(o.id));
        long pos;
        guide::resume();
        try { if(o.id==ASSIGN){ Heap h2; Url v(sv(o.a.data(),o.a.size()),Al(h2)); u=v; } else call(u,o,ns,false,pos); } catch(urls::invalid_part const&){}
        guide::pause();
        ++ctx().evals; phase(0,"");
    }
    return guide::st().fresh!=0; }
template<class Play> void search(u64 idx,Play play){
    Rng g(mix(mix(ctx().seed,0x6775),idx));
    guide::reset();
    int const focus=focus_of(idx);
    std::vector<Story> corpus; u64 const N=guided_execs(); u64 kept=0;
    auto focused=[&](ref::Url const& m){ Op o; int t=0; do o=draw(g,m); while(o.id!=focus&&++t<400); return o; };
    for(u64 x=0;x<N;++x){
        if(x%500==0) arm(20);
        Story s;
        if(x<60||corpus.empty()||g.chance(5)){
            ref::Url m; do s.base= g.chance(15)? string() : gen::url(g); while(s.base.size()>400||!ref::parse(s.base,m));
            u32 const n=g.below(3); for(u32 i=0;i<n;++i) s.ops.push_back(draw(g,m));
            s.ops.push_back(focused(m)); 
        } else {
            std::size_t const nc=corpus.size();
            s= g.chance(25)&&nc>24? corpus[nc-1-g.below(24)] : guide::choose(corpus,g); s.kept.picks=0;
            u32 const rounds=1+g.below(3);
            for(u32 r=0;r<rounds;++r){
                Story const& other=corpus[g.below(u32(nc))];
                u32 const k=g.below(100);
                bool const bare= !s.ops.empty()&&!takes_text(s.ops.back().id);
                if(k<38||(k<75&&bare)){ string b=s.base; guide::vary(b,s.kept.pairs,other.base,g,true); ref::Url m; if(ref::parse(b,m)) s.base=b; }
                else if(k<85&&!s.ops.empty()){
                    Op& o=s.ops[g.chance(60)? s.ops.size()-1 : g.below(u32(s.ops.size()))];
                    if(o.id==PORT_U){ if(!s.kept.pairs.empty()&&g.chance(60)) o.n=unsigned(s.kept.pairs[g.below(u32(s.kept.pairs.size()))].b); else o.n=o.n*10+g.below(10); }
                    else if(takes_text(o.id)){ static string const none; guide::vary(o.a,s.kept.pairs,other.ops.empty()? none : other.ops[g.below(u32(other.ops.size()))].a,g,o.id==ASSIGN||o.id==ENC_URL); }
                    if(is_seg(o.id)&&g.chance(40)){ o.i=g.below(8); o.j=o.i+g.below(4); }
                }
                else if(k<90&&s.ops.size()<7){ ref::Url m; if(ref::parse(s.base,m)) s.ops.insert(s.ops.begin()+long(g.below(u32(s.ops.size()+1))),draw(g,m)); }
                else if(k<93&&s.ops.size()>1) s.ops.erase(s.ops.begin()+long(g.below(u32(s.ops.size()-1))));
                else if(k<96) { ref::Url m; if(ref::parse(s.base,m)) s.ops.push_back(focused(m)); if(s.ops.size()>7) s.ops.erase(s.ops.begin()); }
                else if(!other.ops.empty()) s.base=other.base;
            }
            std::size_t n=s.base.size(); for(auto& o: s.ops) n+=o.a.size(); if(n>400&&!g.chance(n>3000?1:8)) continue;   // long ones are slow
        }
        Rng one(g.next());
        bool const fresh=news(s); if(fresh) s.kept.take();
        if(fresh||one.chance(12)) play(s,one);
        if(fresh){ corpus.push_back(s); ++kept; }
    }
    ctx().stat["guided executions"]+=N; ctx().stat["guided inputs kept for something new"]+=kept;
    if(idx%31==3) sample("search ending in "+string(opname(focus))+", "+std::to_string(kept)+" of "+std::to_string(N)+" kept, last: "+trail.substr(0,300)); }
