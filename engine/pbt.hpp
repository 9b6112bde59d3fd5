// A small property-based testing engine.
//
// A test case is a sequence of bounded integer choices (0 is always the simplest value).  Cases are generated from a
// PRNG seeded by (VERIF_SEED, case index), run in forked workers that record their choices in shared memory, so that
// crashes and hangs are ordinary failures, and shrunk by editing the choice sequence.
#ifndef PBT_HPP
#define PBT_HPP
#include "abi.h"
#include <algorithm>
#include <cerrno>
#include <cfloat>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

namespace pbt {
typedef uint64_t u64;
typedef long double ld;

inline u64 mix(u64 x)
{
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}
struct Rng {
    u64 s;
    explicit Rng(u64 seed = 0) : s(seed) {}
    u64 next() { s += 0x9E3779B97F4A7C15ull; return mix(s); }
    u64 below(u64 b) { return b <= 1 ? 0 : (b == ~0ull ? next() : (u64)(((unsigned __int128)next() * b) >> 64)); }
};

std::string strf(const char * fmt, ...) __attribute__((format(printf, 1, 2)));

struct Failure { std::string msg; };
struct Discard {};

static const size_t MAX_CHOICES = 1 << 18;
struct Shared {                      // one per worker, in shared memory
    volatile u64 index, done, nchoices, flags;
    char where[1024];
    char msg[8192];
    u64 choices[MAX_CHOICES];
    volatile u64 nsuggest;           // length of a suggested simpler choice sequence
    u64 suggest[4096];
};

// source of choices
struct Src {
    Shared * sh;                     // recording target (may be null: unrecorded sub-generator)
    Rng rng;
    const std::vector<u64> * fixed;  // replayed prefix
    bool replay_only;                // beyond the prefix: zeros instead of random choices
    size_t pos;
    Src() : sh(0), fixed(0), replay_only(false), pos(0) {}
    explicit Src(u64 seed) : sh(0), rng(seed), fixed(0), replay_only(false), pos(0) {}
    u64 draw(u64 bound)              // uniform in [0, bound); bound 0 means 2^64
    {
        u64 v;
        if (fixed && pos < fixed->size()) { v = (*fixed)[pos]; if (bound && v >= bound) v = v % bound; }
        else if (replay_only) v = 0;
        else v = bound ? rng.below(bound) : rng.next();
        if (sh) {
            if (pos < MAX_CHOICES) { sh->choices[pos] = v; sh->nchoices = pos + 1; }
        }
        ++pos;
        return v;
    }
    bool chance(u64 num, u64 den) { u64 v = draw(den); return v >= den - num; }   // choice 0: false
    int range(int lo, int hi) { return lo + (int)draw((u64)(hi - lo) + 1); }
};

struct Stats {
    u64 evaluations, nontrivial, discards, points;
    std::unordered_set<u64> distinct;
    std::map<std::string, u64> labels;
    std::vector<std::string> samples;
    Stats() : evaluations(0), nontrivial(0), discards(0), points(0) {}
};

struct Ctx : Src {
    u64 index, total;
    bool thorough;
    bool nontriv;
    std::string desc;                // human readable description of the case
    Stats * st;
    bool verbose;
    u64 npoints;
    Ctx() : index(0), total(1), thorough(false), nontriv(false), st(0), verbose(false), npoints(0) {}
    void label(const std::string & l) { if (st) st->labels[l]++; }
    void nontrivial() { nontriv = true; }
    void points(u64 n) { npoints += n; }
    void where(const char * fmt, ...) __attribute__((format(printf, 2, 3)))
    {
        if (!sh) return;
        va_list ap; va_start(ap, fmt); vsnprintf(sh->where, sizeof sh->where, fmt, ap); va_end(ap);
    }
    void suggest(const std::vector<u64> & c)
    {
        if (!sh || c.size() > 4096) return;
        for (size_t i = 0; i < c.size(); ++i) sh->suggest[i] = c[i];
        sh->nsuggest = c.size();
    }
    void fail(const char * fmt, ...) __attribute__((format(printf, 2, 3), noreturn))
    {
        char b[8000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
        Failure f; f.msg = b; throw f;
    }
    void discard() { throw Discard(); }
};

struct Lib {                          // one configuration
    std::string cfg;
    std::map<char, void *> handle;    // by sample type
    PInfo info[2];
    PInfo const & inf(char t) const { return info[t == 'd']; }
    void * sym(char type, const char * name) const;
};
extern std::vector<Lib> libs;

struct Call {                         // one function identity over all configurations that have it
    std::string fam, op, kinds; char type, form; unsigned N;
    std::vector<std::pair<int, PKernel> > impl;   // (lib index, kernel)
    std::string name() const;
};
extern std::vector<Call> calls;       // sorted, deterministic

struct Property {
    const char * id;
    std::function<void(Ctx &)> run;
    u64 quick, thorough;              // number of cases
    std::function<std::vector<u64>(u64 index, bool thorough)> prefix;   // forced first choices (stratification)
    const char * rule;
    std::function<void()> init;
};
std::vector<Property> & registry();
struct Reg { Reg(Property const & p) { registry().push_back(p); } };

// -------------------------------------------------------------------------------------------- guarded memory
struct Guard {
    uint8_t * base; size_t size;
    Guard() : base(0), size(0) {}
    void init(size_t bytes);
    // kind 0: block ends at the inaccessible page; 1: starts right behind one; 2: interior at multiples of align
    uint8_t * place(int kind, size_t bytes, size_t align, unsigned off) const
    {
        if (kind == 0) return (uint8_t *)((uintptr_t)(base + size - bytes) & ~(uintptr_t)(align - 1));
        if (kind == 1) return base;
        return base + 4096 + (size_t)(off % 256) * align;
    }
    static const size_t PAD = 512;
    uint8_t pat(size_t i) const { return (uint8_t)(0xA5 ^ (i * 37)); }
    void poison(uint8_t * p, size_t bytes) const;      // canaries around and fill inside
    long check(const uint8_t * p, size_t bytes) const; // offset of first damaged canary byte (relative to p) or LONG_MIN
};

int pbt_main(int argc, char ** argv);
}
#endif
