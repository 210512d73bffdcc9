// Tape-based property testing engine.
//
// Every generated case is a pure function of a *tape* of 64-bit choices.  Random generation appends to the
// tape, replay reads it back, and shrinking edits the tape (drop chunks, lower values, zero values) - so one
// mechanism gives generation, shrinking, replay files and coverage-guided fuzzing (bytes -> tape).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

inline uint64_t Mix(uint64_t x) { // splitmix64
    x += 0x9E3779B97F4A7C15ull; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31);
}

/// Source of choices. Small values are "simple": a replay that runs past the end of the tape reads zeros.
class Src {
public:
    explicit Src(uint64_t seed) : mState(Mix(seed)), mReplay(false) {}
    explicit Src(std::vector<uint64_t> tape) : mTape(std::move(tape)), mReplay(true) {}

    /// Uniform value in [0,n).
    uint64_t Below(uint64_t n) {
        if (n <= 1) return 0;
        if (mReplay) { // Out-of-range values (after shrinking edits) are folded back into range.
            uint64_t v = mPos < mTape.size() ? mTape[mPos] : 0; ++mPos; return v % n;
        }
        uint64_t v = Next() % n; mTape.push_back(v); ++mPos;
        if (mObserver) mObserver(v);
        return v;
    }
    long Int(long lo, long hi) { return lo + static_cast<long>(Below(static_cast<uint64_t>(hi - lo) + 1)); }
    bool Chance(double p) { return Below(1000) >= 1000 - static_cast<uint64_t>(p * 1000.0 + 0.5); } // 0 -> false
    double Unit() { return static_cast<double>(Below(1ull << 53)) / static_cast<double>(1ull << 53); }
    double Real(double lo, double hi) { return lo + (hi - lo) * Unit(); }
    /// Mixture: often a "nice" value on a coarse grid, otherwise a generic one.
    double Mixed(double lo, double hi, int cells = 8) {
        if (Chance(0.6)) return Real(lo, hi);
        return lo + (hi - lo) * static_cast<double>(Below(cells + 1)) / cells;
    }
    double LogReal(double lo, double hi) { return std::exp(Real(std::log(lo), std::log(hi))); }
    template<class T> const T& Pick(const std::vector<T>& v) { return v[Below(v.size())]; }
    uint64_t Bits() { return (Below(1ull << 32) << 32) | Below(1ull << 32); }

    const std::vector<uint64_t>& Tape() const { return mTape; }
    std::function<void(uint64_t)> mObserver;
private:
    uint64_t Next() { mState += 0x9E3779B97F4A7C15ull; uint64_t x = mState;
        x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }
    std::vector<uint64_t> mTape;
    size_t mPos = 0;
    uint64_t mState = 0;
    bool mReplay;
};

struct Failure { std::string kind, msg; };
struct Discard {};
struct Known { std::string id; };

/// Per-case record.
class Case {
public:
    /// Reports a violation. `kind` is a stable label of the violated clause (shrinking preserves it).
    [[noreturn]] void Fail(const std::string& kind, const std::string& msg) { throw Failure{kind, msg}; }
    void Check(bool ok, const std::string& kind, const std::string& msg) { if (!ok) Fail(kind, msg); }
    template<class F> void CheckF(bool ok, const std::string& kind, F&& f) { if (!ok) Fail(kind, f()); }
    /// |a-b| <= tol
    void Near(double a, double b, double tol, const std::string& kind, const std::string& what = "") {
        if (!(std::fabs(a - b) <= tol)) {
            std::ostringstream o; o.precision(17);
            o << what << ": got " << a << " expected " << b << " diff " << std::fabs(a - b) << " tol " << tol;
            Fail(kind, o.str());
        }
    }
    void Tag(const std::string& t) { tags.insert(t); }
    void Nontrivial(bool b = true) { nontrivial = nontrivial || b; }
    void Count(const std::string& k, double n = 1) { counts[k] += n; }
    void Max(const std::string& k, double v) { auto it = maxs.find(k); if (it == maxs.end() || v > it->second) maxs[k] = v; }
    std::ostringstream desc;           // human readable description of the generated case
    std::set<std::string> tags;
    std::map<std::string, double> counts;
    std::map<std::string, double> maxs;
    bool nontrivial = false;
    bool thorough = false;
};

using Fn = void (*)(Src&, Case&);
struct Prop {
    std::string id;        // property id (several entries may share it, "sub" tells them apart)
    std::string sub;
    std::string rule;      // what counts as non-trivial
    Fn fn;
    long quick, thorough;  // number of cases
    double caseTimeout;    // seconds after which a case counts as hanging
};
std::vector<Prop>& Registry();
struct Reg { Reg(Prop p) { Registry().push_back(std::move(p)); } };

/// Harness-controlled replacement for the entropy behind std::random_device (see pbt.cpp).
void SeedEntropy(uint64_t seed);
/// Every std::random_device yields the same value: results no longer depend on the order in which threads draw.
void FixEntropy(uint64_t seed);

/// A private scratch directory of this process (created lazily, removed at exit).
std::string ScratchDir();

int Main(int argc, char** argv);
} // namespace pbt

#define PBT_PROP(ID, SUB, RULE, QUICK, THOROUGH, TIMEOUT, FN) \
    static ::pbt::Reg pbt_reg_##FN({ID, SUB, RULE, FN, QUICK, THOROUGH, TIMEOUT})
