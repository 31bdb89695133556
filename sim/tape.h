// The single source of every random choice of a simulated run.
//
// A run draws all its decisions (workload, fault placement, schedule) from one
// Tape.  Fresh runs take them from a PRNG seeded by (VERIF_SEED, property, run
// index); the values drawn are recorded, and replaying the recorded values
// repeats the run exactly.  Minimisation edits the recorded values; zero is
// always the simplest choice, and a tape that has run out yields zeros.
#pragma once
#include <cstdint>
#include <cstddef>
#include <initializer_list>

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed=0):s(seed){}
    uint64_t next(){ // splitmix64
        uint64_t z=(s+=0x9e3779b97f4a7c15ull);
        z=(z^(z>>30))*0xbf58476d1ce4e5b9ull;
        z=(z^(z>>27))*0x94d049bb133111ebull;
        return z^(z>>31);
    }
    uint32_t below(uint32_t n){return n<=1?0:(uint32_t)((next()>>11)%n);}
};

inline uint64_t mix64(uint64_t a,uint64_t b){
    Rng r(a*0x9e3779b97f4a7c15ull^(b+0x7f4a7c159e3779b9ull));
    r.next(); return r.next();
}
inline uint64_t hashBytes(const void* p,size_t n,uint64_t h=0xcbf29ce484222325ull){
    const unsigned char* c=(const unsigned char*)p;
    for(size_t i=0;i<n;i++){h^=c[i];h*=0x100000001b3ull;}
    return h;
}

struct Tape {
    uint32_t* buf=nullptr;   // recorded values (in memory shared with the parent)
    uint32_t* len=nullptr;   // number recorded
    uint32_t cap=0;
    uint32_t pos=0;
    uint32_t preset=0;       // values [0,preset) were given
    bool fresh=true;         // beyond the given values: draw, or yield 0
    Rng rng;
    bool overflow=false;

    uint32_t choose(uint32_t n){
        if(n<=1) return 0;
        uint32_t v;
        if(pos<*len) v=buf[pos]%n;
        else v=fresh?rng.below(n):0;
        if(pos<cap){ buf[pos]=v; pos++; if(pos>*len) *len=pos; }
        else { overflow=true; }
        return v;
    }
    bool chance(uint32_t num,uint32_t den){ // true with probability num/den
        return num>0 && choose(den)>=den-num;
    }
    uint32_t range(uint32_t lo,uint32_t hi){return lo+choose(hi-lo+1);} // inclusive
    uint32_t pick(std::initializer_list<uint32_t> weights){
        uint32_t total=0; for(uint32_t w:weights) total+=w;
        uint32_t v=choose(total),i=0;
        for(uint32_t w:weights){ if(v<w) return i; v-=w; i++; }
        return 0;
    }
    // a coin for element i of a sequence: drawn for the first few, fixed after
    bool tape_small(int i){return i<24?choose(4)==3:false;}
    uint32_t bits(){return choose(0xffffffffu);}
};
