#include "pbt.h"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <csignal>
#include <fstream>
#include <iostream>
#include <random>
#include <dirent.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

// ---------------------------------------------------------------------------------------------------------
// The library seeds its ray directions / perturbations from std::random_device.  The harness interposes the
// entropy source, so that this nondeterminism becomes a generated (and replayable) input.
static std::atomic<uint64_t> gEntropy{1};
static std::atomic<bool> gFixed{false};
unsigned int std::random_device::_M_getval() {
    return static_cast<unsigned int>(pbt::Mix(gEntropy.fetch_add(gFixed ? 0 : 0x9E3779B97F4A7C15ull)) >> 16);
}

namespace pbt {
void FixEntropy(uint64_t seed) { gEntropy.store(Mix(seed ^ 0xABCDEF)); gFixed = true; }
void SeedEntropy(uint64_t seed) { gFixed = false; gEntropy.store(Mix(seed ^ 0xABCDEF)); }
std::vector<Prop>& Registry() { static std::vector<Prop> r; return r; }

static std::string gScratch; static pid_t gScratchOwner = 0;
static std::string gScratchRoot;
static void RemoveTree(const std::string& d) {
    if (DIR* p = opendir(d.c_str())) {
        while (dirent* e = readdir(p)) {
            std::string n = e->d_name; if (n == "." || n == "..") continue;
            std::string f = d + "/" + n; struct stat st;
            if (lstat(f.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) RemoveTree(f); else unlink(f.c_str());
        }
        closedir(p);
    }
    rmdir(d.c_str());
}
std::string ScratchDir() {
    if (gScratchOwner != getpid()) {
        std::string t = gScratchRoot + "/w" + std::to_string(getpid());
        mkdir(t.c_str(), 0700); gScratch = t; gScratchOwner = getpid();
    }
    return gScratch;
}

namespace {
double Now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
uint64_t HashTape(const std::vector<uint64_t>& t) { uint64_t h = 1469598103934665603ull; for (auto v : t) h = Mix(h ^ v); return h; }
uint64_t HashStr(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) h = Mix(h ^ c); return h; }

constexpr size_t kMaxTape = 1u << 20;
struct Shm { // one per worker
    volatile long index; volatile double start; volatile uint64_t n; volatile long done; uint64_t tape[kMaxTape];
};
Shm* MakeShm() {
    void* p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(3); }
    return static_cast<Shm*>(p);
}

#ifdef PBT_TSAN
std::atomic<int> gRaces{0};
#endif
struct Outcome { int code = 0; std::string kind, msg; }; // 0 pass, 1 fail, 2 discard, 3 known finding
Outcome RunCase(const Prop& p, Src& s, Case& c) {
    Outcome o;
    try { SeedEntropy(s.Below(1u << 20)); p.fn(s, c); }
    catch (const Failure& f) { o = {1, f.kind, f.msg}; }
    catch (const Discard&) { o.code = 2; }
    catch (const Known& k) { o = {3, k.id, ""}; }
    catch (const std::exception& e) { o = {1, "exception", std::string("unexpected exception: ") + e.what()}; }
    catch (...) { o = {1, "exception", "unexpected exception of unknown type"}; }
#ifdef PBT_TSAN
    if (gRaces.exchange(0) > 0) o = {1, "data-race", "the thread sanitizer reported a data race (replay with PBT_STDERR=1 shows it)"};
#endif
    return o;
}
std::string OneLine(std::string s, size_t n = 2000) {
    for (auto& ch : s) if (ch == '\n' || ch == '\r') ch = ' ';
    if (s.size() > n) { s.resize(n); s += "..."; } return s;
}
std::string JsonEsc(const std::string& s) {
    std::string o; for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += char(ch); }
        else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
        else o += char(ch); }
    return o;
}

struct FailureRec { std::string sub, kind, msg, desc; std::vector<uint64_t> tape; long index = -1; int confirmed = 0; };
struct Stats {
    long evals = 0, discards = 0, nontrivial = 0; std::map<std::string, long> tags, known; std::map<std::string, double> counts, maxs;
    std::set<uint64_t> hashes; std::vector<std::string> samples;
};

void LimitResources() {
#ifndef PBT_SAN
    rlimit r{6ull << 30, 6ull << 30}; setrlimit(RLIMIT_AS, &r);
#endif
    rlimit c{0, 0}; setrlimit(RLIMIT_CORE, &c);
    rlimit f{1ull << 30, 1ull << 30}; setrlimit(RLIMIT_FSIZE, &f);
}
void Quiet() { // library chatter goes nowhere, results travel through files
    int n = open("/dev/null", O_WRONLY); dup2(n, 1); if (!getenv("PBT_STDERR")) dup2(n, 2); close(n);
}

/// Runs one tape in a child. Returns outcome incl. crash/hang kinds; desc filled.
FailureRec RunTapeIsolated(const Prop& p, const std::vector<uint64_t>& tape, bool thorough, double timeout, int* code) {
    FailureRec r; r.sub = p.sub; r.tape = tape;
    std::string out = gScratchRoot + "/iso" + std::to_string(getpid());
    unlink(out.c_str());
    pid_t pid = fork();
    if (pid == 0) {
        LimitResources(); Quiet();
        Src s(tape); Case c; c.thorough = thorough;
        Outcome o = RunCase(p, s, c);
        std::ofstream f(out); f << o.code << "\n" << OneLine(o.kind) << "\n" << OneLine(o.msg) << "\n" << c.desc.str() << "\n"; f.close();
        RemoveTree(ScratchDir());
        _exit(0);
    }
    double t0 = Now(); int st = 0; bool hang = false;
    while (true) {
        pid_t w = waitpid(pid, &st, WNOHANG);
        if (w == pid) break;
        if (Now() - t0 > timeout) { kill(pid, SIGKILL); waitpid(pid, &st, 0); hang = true; break; }
        usleep(300);
    }
    RemoveTree(gScratchRoot + "/w" + std::to_string(pid));
    if (hang) { r.kind = "hang"; r.msg = "case did not terminate within the per-case limit"; *code = 1; return r; }
    if (WIFSIGNALED(st) || WEXITSTATUS(st) != 0) {
        r.kind = WIFSIGNALED(st) ? "crash:signal" + std::to_string(WTERMSIG(st)) : "crash:exit" + std::to_string(WEXITSTATUS(st));
        r.msg = "process died while running the case"; *code = 1; return r;
    }
    std::ifstream f(out); std::string l; std::getline(f, l); *code = atoi(l.c_str());
    std::getline(f, r.kind); std::getline(f, r.msg); std::stringstream d; d << f.rdbuf(); r.desc = d.str();
    return r;
}

void Shrink(const Prop& p, FailureRec& rec, bool thorough, double budget) {
    double t0 = Now(); double to = p.caseTimeout;
    if (rec.kind == "hang") budget = std::min(budget, 3 * to);
    auto fails = [&](const std::vector<uint64_t>& t) {
        int code = 0; FailureRec r = RunTapeIsolated(p, t, thorough, to, &code);
        if (code == 1 && r.kind == rec.kind) { rec.tape = t; rec.msg = r.msg; if (!r.desc.empty()) rec.desc = r.desc; return true; }
        return false;
    };
    auto timeUp = [&] { return Now() - t0 > budget; };
    bool progress = true;
    while (progress && !timeUp()) {
        progress = false;
        // delete chunks
        for (size_t k = std::max<size_t>(1, rec.tape.size() / 2); k >= 1 && !timeUp(); k /= 2) {
            for (size_t i = 0; i + k <= rec.tape.size() && !timeUp();) {
                auto t = rec.tape; t.erase(t.begin() + i, t.begin() + i + k);
                if (fails(t)) progress = true; else i += k;
            }
            if (k == 1) break;
        }
        // zero blocks
        for (size_t k = std::max<size_t>(1, rec.tape.size() / 2); k >= 1 && !timeUp(); k /= 2) {
            for (size_t i = 0; i + k <= rec.tape.size() && !timeUp(); i += k) {
                auto t = rec.tape; bool ch = false; for (size_t j = i; j < i + k; ++j) { ch |= t[j] != 0; t[j] = 0; }
                if (ch && fails(t)) progress = true;
            }
            if (k == 1) break;
        }
        // lower individual values (binary)
        for (size_t i = 0; i < rec.tape.size() && !timeUp(); ++i) {
            uint64_t lo = 0, hi = rec.tape[i];
            int it = 0;
            while (lo < hi && it++ < 12 && !timeUp()) {
                uint64_t mid = lo + (hi - lo) / 2; auto t = rec.tape; t[i] = mid;
                if (fails(t)) { hi = mid; progress = true; } else lo = mid + 1;
            }
            // rounder 53-bit fractions
            if (i < rec.tape.size() && rec.tape[i] > (1ull << 40)) {
                for (int b = 50; b >= 30 && !timeUp(); b -= 5) { auto t = rec.tape; t[i] = (t[i] >> b) << b; if (t[i] != rec.tape[i] && fails(t)) { progress = true; break; } }
            }
        }
    }
}

void WriteTape(const std::string& file, const std::string& prop, const FailureRec& r, const std::string& note = "") {
    std::ofstream f(file);
    f << "property " << prop << "\nsub " << r.sub << "\nkind " << r.kind << "\n";
    if (!note.empty()) f << "# " << note << "\n";
    f << "# " << OneLine(r.msg, 4000) << "\n";
    std::istringstream d(r.desc); std::string l; int n = 0; while (std::getline(d, l) && n++ < 400) f << "# " << l << "\n";
    f << "tape"; for (auto v : r.tape) f << ' ' << v; f << "\n";
}
bool ReadTape(const std::string& file, FailureRec& r, std::string& prop) {
    std::ifstream f(file); if (!f) return false; std::string l;
    while (std::getline(f, l)) {
        std::istringstream i(l); std::string k; i >> k;
        if (k == "property") i >> prop; else if (k == "sub") i >> r.sub; else if (k == "kind") i >> r.kind;
        else if (k == "tape") { uint64_t v; while (i >> v) r.tape.push_back(v); }
    }
    return true;
}

void MergeStats(const std::string& file, Stats& s) {
    std::ifstream f(file); std::string l;
    while (std::getline(f, l)) {
        std::istringstream i(l); std::string k; i >> k;
        if (k == "evals") { long v; i >> v; s.evals += v; }
        else if (k == "discards") { long v; i >> v; s.discards += v; }
        else if (k == "nontrivial") { long v; i >> v; s.nontrivial += v; }
        else if (k == "tag") { long v; std::string n; i >> v; std::getline(i >> std::ws, n); s.tags[n] += v; }
        else if (k == "known") { long v; std::string n; i >> v; std::getline(i >> std::ws, n); s.known[n] += v; }
        else if (k == "count") { double v; std::string n; i >> v; std::getline(i >> std::ws, n); s.counts[n] += v; }
        else if (k == "max") { double v; std::string n; i >> v; std::getline(i >> std::ws, n); auto it = s.maxs.find(n); if (it == s.maxs.end() || it->second < v) s.maxs[n] = v; }
        else if (k == "h") { uint64_t v; i >> v; s.hashes.insert(v); }
        else if (k == "sample") { std::string n; std::getline(i >> std::ws, n); s.samples.push_back(n); }
    }
}
void WriteStats(const std::string& file, const Stats& s) {
    std::ofstream f(file); f.precision(17);
    f << "evals " << s.evals << "\ndiscards " << s.discards << "\nnontrivial " << s.nontrivial << "\n";
    for (auto& t : s.tags) f << "tag " << t.second << ' ' << t.first << "\n";
    for (auto& t : s.known) f << "known " << t.second << ' ' << t.first << "\n";
    for (auto& t : s.counts) f << "count " << t.second << ' ' << t.first << "\n";
    for (auto& t : s.maxs) f << "max " << t.second << ' ' << t.first << "\n";
    for (auto& t : s.hashes) f << "h " << t << "\n";
    for (auto& t : s.samples) f << "sample " << t << "\n";
}

void Worker(const Prop& p, uint64_t seed, int w, int W, long first, long N, double deadline, bool thorough, Shm* shm, const std::string& base) {
    LimitResources(); Quiet();
    Stats st; std::string statFile = base + ".stats";
    long n = 0;
    for (long i = first; i < N; i += W) {
        if (Now() > deadline) break;
        uint64_t cs = Mix(seed * 1000003ull + HashStr(p.id + "/" + p.sub)) ^ Mix(static_cast<uint64_t>(i) + 77);
        Src s(cs); Case c; c.thorough = thorough;
        shm->n = 0; shm->index = i; shm->start = Now();
        s.mObserver = [shm](uint64_t v) { if (shm->n < kMaxTape) { shm->tape[shm->n] = v; shm->n = shm->n + 1; } };
        Outcome o = RunCase(p, s, c);
        ++st.evals; ++n;
        if (o.code == 2) { ++st.discards; }
        else if (o.code == 3) { ++st.known[o.kind]; }
        else if (o.code == 0) {
            for (auto& t : c.tags) ++st.tags[t];
            for (auto& t : c.counts) st.counts[t.first] += t.second;
            for (auto& t : c.maxs) { auto it = st.maxs.find(t.first); if (it == st.maxs.end() || it->second < t.second) st.maxs[t.first] = t.second; }
            if (c.nontrivial) { ++st.nontrivial; st.hashes.insert(HashTape(s.Tape())); if (st.samples.size() < 2) st.samples.push_back(OneLine("[" + p.sub + " #" + std::to_string(i) + "] " + c.desc.str(), 600)); }
        } else {
            FailureRec r; r.sub = p.sub; r.kind = o.kind; r.msg = o.msg; r.desc = c.desc.str(); r.tape = s.Tape(); r.index = i;
            WriteTape(base + ".fail", p.id, r); std::ofstream(base + ".failidx") << i << "\n";
            break;
        }
        shm->done = n;
        if (n % 64 == 0) { shm->start = Now(); WriteStats(statFile, st); }
    }
    shm->start = 0;
    WriteStats(statFile, st);
    RemoveTree(ScratchDir());
    _exit(0);
}
} // namespace

} // namespace pbt
#ifdef PBT_ASAN
extern "C" const char* __asan_default_options() { return "detect_stack_use_after_return=0:malloc_context_size=1:quarantine_size_mb=16"; }
#endif
#ifdef PBT_TSAN
extern "C" void __tsan_on_report(void*) { pbt::gRaces.fetch_add(1); }
extern "C" const char* __tsan_default_options() { return "halt_on_error=0:exitcode=0:report_thread_leaks=0:die_after_fork=0:report_signal_unsafe=0:history_size=4"; }
#endif
namespace pbt {
int Main(int argc, char** argv) {
    // One OpenMP thread by default (properties may raise it), idle threads sleep: eight workers would otherwise slow each other down.
    if (!getenv("PBT_OMP")) { setenv("PBT_OMP", "1", 1); setenv("MALLOC_PERTURB_", "192", 1); // uninitialised memory reads 4.8e-4 in every run
        setenv("OMP_NUM_THREADS", "1", 1); setenv("OMP_WAIT_POLICY", "passive", 1); setenv("OMP_DYNAMIC", "false", 1); execv("/proc/self/exe", argv); }

    std::map<std::string, std::string> a; std::vector<std::string> pos;
    for (int i = 1; i < argc; ++i) { std::string s = argv[i]; if (s.rfind("--", 0) == 0 && i + 1 < argc) a[s.substr(2)] = argv[++i]; else pos.push_back(s); }
    std::string mode = pos.empty() ? "run" : pos[0];
    setenv("OMP_NUM_THREADS", "1", 0);
    setenv("OMP_WAIT_POLICY", "passive", 0);
    setenv("UBSAN_OPTIONS", "halt_on_error=1:print_stacktrace=1", 0);
    char tmpl[] = "/tmp/pbtXXXXXX"; gScratchRoot = mkdtemp(tmpl);
    struct Cleaner { pid_t me = getpid(); ~Cleaner() { if (getpid() == me) RemoveTree(gScratchRoot); } } cleaner;
    std::string id = a["prop"]; bool thorough = a["tier"] == "thorough";

    if (mode == "list") { for (auto& p : Registry()) std::cout << p.id << ' ' << p.sub << ' ' << p.quick << ' ' << p.thorough << "\n"; return 0; }
    if (mode == "replay") {
        FailureRec r; std::string pid;
        if (!ReadTape(pos.at(1), r, pid)) { std::cerr << "cannot read replay\n"; return 3; }
        for (auto& p : Registry()) if (p.id == pid && p.sub == r.sub) {
            int code = 0; FailureRec o = RunTapeIsolated(p, r.tape, thorough, p.caseTimeout, &code);
            std::cout << (code == 1 ? "FAIL " + o.kind + ": " + o.msg : code == 3 ? "KNOWN " + o.kind : code == 2 ? "DISCARD" : "PASS") << "\n" << o.desc << "\n";
            return code == 1 ? 1 : 0;
        }
        std::cerr << "no such property/sub\n"; return 3;
    }
    uint64_t seed = a.count("seed") ? strtoull(a["seed"].c_str(), nullptr, 10) : 1;
    int W = a.count("workers") ? atoi(a["workers"].c_str()) : 8;
    double cap = a.count("cap") ? atof(a["cap"].c_str()) : 300;
    double scale = a.count("scale") ? atof(a["scale"].c_str()) : 1.0;
    double shrinkBudget = a.count("shrink") ? atof(a["shrink"].c_str()) : 60;
    std::string only = a["sub"], failDir = a.count("failures") ? a["failures"] : gScratchRoot, regress = a["regress"];
    double T0 = Now();
    Stats all; std::vector<FailureRec> failures; std::map<std::string, std::string> perSub; int regressRun = 0;
    std::vector<const Prop*> props; double weight = 0;
    for (auto& p : Registry()) if (p.id == id && (only.empty() || p.sub == only)) { props.push_back(&p); weight += 1; }
    if (props.empty()) { std::cerr << "unknown property " << id << "\n"; return 3; }

    // 1. regression tapes
    if (!regress.empty()) if (DIR* d = opendir(regress.c_str())) {
        std::vector<std::string> fs; while (dirent* e = readdir(d)) { std::string n = e->d_name; if (n.size() > 5 && n.substr(n.size() - 5) == ".tape") fs.push_back(regress + "/" + n); }
        closedir(d); std::sort(fs.begin(), fs.end());
        for (auto& f : fs) { FailureRec r; std::string pid; if (!ReadTape(f, r, pid) || pid != id) continue;
            for (auto* p : props) if (p->sub == r.sub) { int code = 0; FailureRec o = RunTapeIsolated(*p, r.tape, thorough, p->caseTimeout, &code); ++regressRun; ++all.evals;
                if (code == 1) { o.index = -2; failures.push_back(o); } } }
    }
    // 2. generated cases
    size_t pi = 0;
    for (auto* p : props) {
        double tsub = Now();
        long N = std::max<long>(1, static_cast<long>((thorough ? p->thorough : p->quick) * scale));
        double deadline = T0 + cap * (pi + 1) / props.size(); ++pi;
        if (deadline < Now() + 5) deadline = Now() + 5;
        int nw = static_cast<int>(std::min<long>(W, N));
        std::vector<Shm*> shm(nw); std::vector<pid_t> pids(nw); std::vector<std::string> base(nw); std::vector<char> alive(nw, 1);
        std::vector<FailureRec> found;
        for (int w = 0; w < nw; ++w) {
            shm[w] = MakeShm(); base[w] = gScratchRoot + "/" + p->sub + "." + std::to_string(w);
            pids[w] = fork(); if (pids[w] == 0) Worker(*p, seed, w, nw, w, N, deadline, thorough, shm[w], base[w]);
        }
        int left = nw;
        while (left > 0) {
            usleep(2000);
            for (int w = 0; w < nw; ++w) if (alive[w]) {
                int st = 0; pid_t r = waitpid(pids[w], &st, WNOHANG); std::string kind;
                if (r == pids[w]) { if (WIFSIGNALED(st)) kind = "crash:signal" + std::to_string(WTERMSIG(st)); else if (WEXITSTATUS(st) != 0) kind = "crash:exit" + std::to_string(WEXITSTATUS(st)); }
                else if (shm[w]->start > 0 && Now() - shm[w]->start > p->caseTimeout) { kill(pids[w], SIGKILL); waitpid(pids[w], &st, 0); kind = "hang"; }
                else continue;
                alive[w] = 0; --left; RemoveTree(gScratchRoot + "/w" + std::to_string(pids[w]));
                if (!kind.empty()) { FailureRec f; f.sub = p->sub; f.kind = kind; f.msg = "process died or hung while running the case"; f.index = shm[w]->index; f.tape.assign(shm[w]->tape, shm[w]->tape + shm[w]->n); found.push_back(f); }
            }
        }
        Stats sub;
        for (int w = 0; w < nw; ++w) {
            MergeStats(base[w] + ".stats", all); MergeStats(base[w] + ".stats", sub);
            FailureRec f; std::string pid; if (ReadTape(base[w] + ".fail", f, pid)) { std::ifstream(base[w] + ".failidx") >> f.index; found.push_back(f); }
            munmap(shm[w], sizeof(Shm));
        }
        std::ostringstream o; o << "{\"cases\":" << sub.evals << ",\"planned\":" << N << ",\"nontrivial\":" << sub.nontrivial << ",\"discarded\":" << sub.discards << ",\"rule\":\"" << JsonEsc(p->rule) << "\",\"wall_s\":" << Now() - tsub << "}";
        perSub[p->sub] = o.str();
        std::sort(found.begin(), found.end(), [](auto& x, auto& y) { return x.index < y.index; });
        if (found.size() > 3) found.resize(3);
        for (auto& f : found) failures.push_back(f);
        if (!found.empty() && !a.count("keep-going")) break;
    }
    // 3. confirm, shrink, write replay files.
    std::ostringstream fj; bool firstf = true; int n = 0; int real = 0;
    std::set<std::string> seenKinds;
    for (auto& f : failures) {
        const Prop* pp = nullptr; for (auto* p : props) if (p->sub == f.sub) pp = p;
        if (seenKinds.count(f.sub + f.kind)) continue;
        seenKinds.insert(f.sub + f.kind);
        int ok = 0, code = 0; FailureRec conf;
        // A hang must exceed three times the limit once more (the machine may just have stalled, and some inputs are merely slow;
        // with AddressSanitizer it only counts as a report, the same cases run without it). Any other failure must reproduce in
        // 3 of 3 replays, or - where the code under test is itself nondeterministic - at least once more in 40 replays.
        const bool hung = f.kind == "hang"; double tc = Now();
#ifdef __SANITIZE_ADDRESS__
        const bool slow = hung;
#else
        const bool slow = false;
#endif
        for (int k = 0; !slow && k < (hung ? 1 : 3) || (!hung && ok == 0 && k < 40 && Now() - tc < 60); ++k) { FailureRec o = RunTapeIsolated(*pp, f.tape, thorough, pp->caseTimeout * (hung ? 3 : 1), &code); if (code == 1) { ++ok; conf = o; } }
        const bool confirmed = ok >= 1;
        if (hung && ok) ok = 3;
        f.confirmed = ok;
        if (ok > 0) { f.kind = conf.kind; f.msg = conf.msg; if (!conf.desc.empty()) f.desc = conf.desc; }
        if (confirmed) { if (real == 0 && ok >= 3) Shrink(*pp, f, thorough, shrinkBudget); ++real; }
        std::string file = failDir + "/" + id + "_" + f.sub + "_" + std::to_string(n++) + ".tape";
        WriteTape(file, id, f, ok >= 3 ? "" : "NOT deterministically reproducible: " + std::to_string(ok) + " replays failed");
        fj << (firstf ? "" : ",") << "{\"sub\":\"" << f.sub << "\",\"kind\":\"" << JsonEsc(f.kind) << "\",\"msg\":\"" << JsonEsc(OneLine(f.msg)) << "\",\"confirmed\":" << (confirmed ? "true" : "false") << ",\"replays_failed\":" << ok << ",\"index\":" << f.index << ",\"replay\":\"" << JsonEsc(file) << "\"}"; firstf = false;
    }
    std::ostringstream o; o.precision(8);
    o << "{\"property\":\"" << id << "\",\"seed\":" << seed << ",\"evaluations\":" << all.evals << ",\"discarded\":" << all.discards << ",\"nontrivial\":" << all.nontrivial << ",\"distinct_nontrivial\":" << all.hashes.size() << ",\"regression_tapes\":" << regressRun << ",\"wall_s\":" << Now() - T0;
    auto dump = [&](const char* n, auto& m) { o << ",\"" << n << "\":{"; bool f = true; for (auto& t : m) { o << (f ? "" : ",") << "\"" << JsonEsc(t.first) << "\":" << (std::isfinite(double(t.second)) ? double(t.second) : 1e300); f = false; } o << "}"; };
    dump("classes", all.tags); dump("known_excluded", all.known); dump("counts", all.counts); dump("maxima", all.maxs);
    o << ",\"subs\":{"; bool f1 = true; for (auto& s : perSub) { o << (f1 ? "" : ",") << "\"" << s.first << "\":" << s.second; f1 = false; } o << "}";
    o << ",\"samples\":["; f1 = true; int k = 0; for (auto& s : all.samples) { if (k++ >= 12) break; o << (f1 ? "" : ",") << "\"" << JsonEsc(s) << "\""; f1 = false; } o << "]";
    o << ",\"failures\":[" << fj.str() << "]}";
    if (a.count("out")) std::ofstream(a["out"]) << o.str() << "\n"; else std::cout << o.str() << "\n";
    return real > 0 ? 1 : (failures.empty() ? 0 : 2);
}
} // namespace pbt
#ifndef PBT_NO_MAIN
int main(int argc, char** argv) { return pbt::Main(argc, argv); }
#endif
