// Exhaustive exploration driver: every case of every declared space is executed, in forked workers,
// each failure is replayed alone before it is reported, and what was covered is counted.
#pragma once
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>

namespace hx {

inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }

inline uint64_t hash(const void * p, size_t n, uint64_t h = 0xcbf29ce484222325ull) {
    const unsigned char * c = (const unsigned char *) p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 0x100000001b3ull; }
    h ^= h >> 29; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 32;
    return h;
}
inline uint64_t hash(const std::string & s, uint64_t h = 0xcbf29ce484222325ull) { return hash(s.data(), s.size(), h); }

inline std::string fmt(const char * f, ...) {
    va_list ap; va_start(ap, f);
    char * b = nullptr; int n = vasprintf(&b, f, ap); va_end(ap);
    std::string s(b, n); free(b); return s;
}
inline std::string esc(const std::string & s) { // printable, one line
    std::string r;
    for (unsigned char c : s) {
        if (c == '\n') r += "\\n"; else if (c == '\r') r += "\\r"; else if (c == '\t') r += "\\t"; else if (c == '\\') r += "\\\\";
        else if (c < 32 || c >= 127) r += fmt("\\x%02x", c); else r += (char) c;
    }
    return r;
}
inline std::string jstr(const std::string & s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char) c; } else if (c < 32 || c >= 127) r += fmt("\\u%04x", c); else r += (char) c;
    }
    return r + "\"";
}

struct Fail { char prop[8]; int space; uint64_t idx; char key[256]; char msg[6000]; int kind; /*0 oracle,1 crash,2 hang*/ };
constexpr int MAXFAIL = 64;
constexpr uint64_t BITS = 1ull << 27;

struct Shared {
    std::atomic<uint64_t> next[4096];      // per space
    std::atomic<uint64_t> done[4096];
    std::atomic<uint64_t> transitions, traces, skipped;
    std::atomic<int> nfail;
    std::atomic<int> stop;
    Fail fail[MAXFAIL];
    struct Cur { std::atomic<int> space; std::atomic<uint64_t> idx; std::atomic<double> since; std::atomic<uint64_t> end; } cur[64];
    std::atomic<uint64_t> nsample;
    char sample[64][400];
    std::atomic<uint64_t> counters[32];
    unsigned char outcome[BITS / 8];
    unsigned char state[BITS / 8];
};
inline Shared * sh;

struct Case { // handed to the body of a space
    int space; uint64_t idx; bool solo;
    bool failed = false;
    std::string key;                      // set by the body: identifies the case across versions of the space
    void fail(const char * prop, const std::string & msg);
    void outcome(uint64_t h) { __atomic_fetch_or(&sh->outcome[(h & (BITS - 1)) >> 3], 1 << (h & 7), __ATOMIC_RELAXED); }
    void outcome(const std::string & s) { outcome(hash(s)); }
    void state(uint64_t h) { __atomic_fetch_or(&sh->state[(h & (BITS - 1)) >> 3], 1 << (h & 7), __ATOMIC_RELAXED); }
    void transitions(uint64_t n = 1) { sh->transitions.fetch_add(n, std::memory_order_relaxed); }
    void trace(uint64_t n = 1) { sh->traces.fetch_add(n, std::memory_order_relaxed); }
    void count(int c, uint64_t n = 1) { sh->counters[c].fetch_add(n, std::memory_order_relaxed); }
    void skip() { sh->skipped.fetch_add(1, std::memory_order_relaxed); }
};

struct Space {
    std::string name;
    uint64_t size;
    std::function<void(Case &)> run;
    std::function<std::string(uint64_t)> show; // the case, written out
    unsigned chunk = 64;
    double limit = 20;                          // seconds one case may take
    std::function<uint64_t()> dyn;              // size of a level of a state exploration, known when the level before it is done
    std::function<std::string(uint64_t)> path;  // written to the replay file; replayed by
    std::function<void(Case &, const std::string &)> runpath;
    uint64_t sz() const { return dyn ? dyn() : size; }
};

// A system explored state by state: every operation is applied in every reachable state, on the real
// code, each time from the start along the path that first reached the state.
struct System {
    virtual ~System() {}
    virtual int nops() = 0;
    virtual std::string name(int op) = 0;
    virtual void reset() = 0;
    virtual bool apply(int op, std::string & err) = 0;   // false: not possible in this state; err: what it did wrong
    virtual uint64_t print() = 0;                        // the state: model and the implementation's own
    virtual void observe(std::string & err) = 0;         // everything that can be read in this state
    virtual void finish(std::string & err) = 0;          // releases everything
    virtual uint64_t fan() { return nops(); }
};
struct Bfs {
    std::atomic<uint64_t> nstates;
    std::atomic<uint64_t> end[256];            // first state after level d
    std::atomic<uint64_t> full;
    std::atomic<int> deepest;
};

struct Main {
    std::string prop, tier = "quick", level = "exploration", rule;
    std::vector<Space> spaces;
    std::vector<std::string> assumptions;
    std::vector<std::pair<int, std::string>> counters;
    int workers = 8;
    double budget = 600;                        // wall clock for all spaces
    std::string out, replaydir = "/tmp", known;
    std::set<std::string> only;                 // --space
    bool thorough() const { return tier == "thorough"; }
    std::vector<std::function<std::pair<std::string, uint64_t>()>> explored;

    void parse(int argc, char ** argv);
    void add(std::string name, uint64_t size, std::function<void(Case &)> run, std::function<std::string(uint64_t)> show, unsigned chunk = 64, double limit = 20) {
        if (size == 0) return;
        bool odd = false;   // the name is part of a file name
        for (char & ch : name) if (!isalnum((unsigned char) ch) && !strchr("_.:-", ch)) { ch = '_'; odd = true; }
        if (odd) name += fmt("-%zu", spaces.size());
        spaces.push_back(Space{name, size, run, show, chunk, limit});
    }
    int go(int argc, char ** argv);
    // all states within depth operations; maxstates bounds the memory
    void explore(std::string name, int depth, std::function<System *()> make, uint64_t maxstates = 1 << 24, double limit = 30);
    std::string replay, part = "-:0"; bool verbose = false;
  private:
    void worker(int w);
    bool solo(int space, uint64_t idx, double limit, std::string & err, int & kind, Fail * rec);
};
inline Main * self;

inline void Case::fail(const char * prop, const std::string & msg) {
    failed = true;
    int n = sh->nfail.fetch_add(1);
    if (n >= MAXFAIL) { sh->stop = 1; return; }
    Fail & f = sh->fail[n];
    snprintf(f.prop, sizeof f.prop, "%s", prop);
    f.space = space; f.idx = idx; f.kind = 0;
    snprintf(f.key, sizeof f.key, "%s", key.empty() ? self->spaces[space].show(idx).c_str() : key.c_str());
    snprintf(f.msg, sizeof f.msg, "%s", msg.c_str());
}

inline void Main::parse(int argc, char ** argv) {
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto v = [&]() { return std::string(argv[++i]); };
        if (a == "--tier") tier = v();
        else if (a == "--out") out = v();
        else if (a == "--replay-dir") replaydir = v();
        else if (a == "--known") known = v();
        else if (a == "--budget") budget = atof(v().c_str());
        else if (a == "--workers") workers = atoi(v().c_str());
        else if (a == "--space") only.insert(v());
        else if (a == "--replay") replay = v();
        else if (a == "--part") part = v();
        else if (a == "-v") verbose = true;
    }
    self = this;
}

inline void Main::worker(int w) {
    Shared::Cur & cur = sh->cur[w];
    for (size_t s = 0; s < spaces.size() && !sh->stop; s++) {
        Space & sp = spaces[s];
        if (!only.empty() && !only.count(sp.name)) continue;
        uint64_t resume = cur.idx, rend = cur.end;
        bool have = cur.space == (int) s && resume < rend;
        if (cur.space > (int) s) continue;
        if (sp.dyn) { // the level before must be complete
            const Space & pre = spaces[s - 1];
            uint64_t want = pre.sz();
            while (sh->done[s - 1] < want && !sh->stop) usleep(200);
            if (sh->stop) break;
        }
        uint64_t size = sp.sz();
        while (!sh->stop) {
            uint64_t a, b;
            if (have) { a = resume; b = rend; have = false; }
            else { a = sh->next[s].fetch_add(sp.chunk); b = a + sp.chunk; if (b > size) b = size; }
            if (a >= size) break;
            cur.end = b; cur.idx = a; cur.space = (int) s;
            for (uint64_t i = a; i < b && !sh->stop; i++) {
                cur.idx = i; cur.since = now();
                Case c{(int) s, i, false};
                sp.run(c);
                sh->done[s].fetch_add(1, std::memory_order_relaxed);
                cur.idx = i + 1;
            }
        }
    }
    cur.space = 1 << 30;
}

// one case alone in a fresh process, its output captured
inline bool Main::solo(int space, uint64_t idx, double limit, std::string & err, int & kind, Fail * rec) {
    int n0 = sh->nfail = 0;
    sh->stop = 0;
    std::string f = replaydir + fmt("/solo.%d", getpid());
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
        int fd = open(f.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        dup2(fd, 2);
        setsid();
        Case c{space, idx, true};
        spaces[space].run(c);
        _exit(0);
    }
    double t0 = now();
    int st = 0; bool hung = false;
    for (;;) {
        pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p) break;
        if (now() - t0 > limit) { kill(-p, SIGKILL); kill(p, SIGKILL); waitpid(p, &st, 0); hung = true; break; }
        usleep(2000);
    }
    err.clear();
    if (FILE * h = fopen(f.c_str(), "r")) { char b[5000]; size_t n = fread(b, 1, sizeof b, h); err.assign(b, n); fclose(h); }
    unlink(f.c_str());
    (void) n0;
    if (hung) { kind = 2; return true; }
    if (sh->nfail > 0) { kind = 0; *rec = sh->fail[0]; return true; }
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { kind = 1; return true; }
    return false;
}

inline int Main::go(int argc, char ** argv) {
    self = this;
    sh = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (sh == MAP_FAILED) { perror("mmap"); return 3; }
    struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);

    if (!replay.empty()) { // file: space\nindex\n...
        FILE * f = fopen(replay.c_str(), "r");
        if (!f) { perror(replay.c_str()); return 3; }
        char name[256] = {0}; unsigned long long idx = 0; char ti[64] = {0};
        if (fscanf(f, "tier=%63s\nspace=%255[^\n]\nindex=%llu", ti, name, &idx) != 3) { fprintf(stderr, "bad replay file\n"); return 3; }
        fclose(f);
        for (size_t s = 0; s < spaces.size(); s++) if (spaces[s].name == name) {
            std::string path;
            if (spaces[s].runpath) {
                FILE * g = fopen(replay.c_str(), "r"); char l[4096];
                while (g && fgets(l, sizeof l, g)) if (!strncmp(l, "path=", 5)) path = std::string(l + 5, strcspn(l + 5, "\n"));
                if (g) fclose(g);
                auto rp = spaces[s].runpath;
                spaces[s].run = [=](Case & c) { rp(c, path); };
                printf("path: %s\n", path.c_str());
            } else printf("case: %s\n", spaces[s].show(idx).c_str());
            std::string err; int kind; Fail rec;
            if (solo(s, idx, spaces[s].limit * 3, err, kind, &rec)) {
                printf("FAILS (%s): %s\n%s\n", kind == 0 ? "oracle" : kind == 1 ? "crash" : "hang", kind == 0 ? rec.msg : "", err.c_str());
                return 1;
            }
            printf("holds\n");
            return 0;
        }
        fprintf(stderr, "no such space: %s\n", name);
        return 3;
    }

    double t0 = now();
    for (auto & c : sh->cur) { c.space = -1; c.idx = 0; c.end = 0; }
    std::vector<pid_t> pid(workers, 0);
    auto spawn = [&](int w) {
        fflush(stdout);
        sh->cur[w].since = now();
        pid_t p = fork();
        if (p == 0) {
            setsid();
            // library diagnostics and sanitizer reports are only of interest in the replay
            int fd = open("/dev/null", O_WRONLY); dup2(fd, 2);
            worker(w);
            _exit(0);
        }
        pid[w] = p;
    };
    struct Cand { int space; uint64_t idx; int kind; };
    std::vector<Cand> cand;
    for (int w = 0; w < workers; w++) spawn(w);
    int alive = workers; bool capped = false;
    while (alive > 0) {
        usleep(5000);
        for (int w = 0; w < workers; w++) if (pid[w]) {
            int st;
            Shared::Cur & cur = sh->cur[w];
            pid_t r = waitpid(pid[w], &st, WNOHANG);
            bool bad = false; int kind = 1;
            if (r == pid[w]) {
                kill(-pid[w], SIGKILL);
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { pid[w] = 0; alive--; continue; }
                bad = true;
            } else if (int sp = *(volatile int *) &cur.space; sp >= 0 && sp < (int) spaces.size() && now() - cur.since > spaces[sp].limit) {
                kill(-pid[w], SIGKILL); waitpid(pid[w], &st, 0); bad = true; kind = 2;
            }
            if (bad) {
                if (cur.space >= 0 && cur.space < (int) spaces.size()) {
                    cand.push_back({cur.space, cur.idx, kind});
                    sh->done[cur.space].fetch_add(1);
                    cur.idx = cur.idx + 1;
                }
                if (cand.size() >= 24) sh->stop = 1;
                if (sh->stop) { pid[w] = 0; alive--; } else spawn(w);
            }
        }
        if (!sh->stop && now() - t0 > budget) { capped = true; sh->stop = 1; }
    }
    bool cut = sh->stop;
    int nf = sh->nfail; if (nf > MAXFAIL) nf = MAXFAIL;
    std::vector<Fail> fails(sh->fail, sh->fail + nf);
    std::set<std::string> seenkey;
    for (auto & c : cand) { Fail f{}; snprintf(f.prop, sizeof f.prop, "%s", prop.c_str()); f.space = c.space; f.idx = c.idx; f.kind = c.kind; snprintf(f.key, sizeof f.key, "%s", spaces[c.space].show(c.idx).c_str()); fails.push_back(f); }
    // lowest case first: it is the smallest
    std::sort(fails.begin(), fails.end(), [](const Fail & a, const Fail & b) { return a.space != b.space ? a.space < b.space : a.idx < b.idx; });

    std::set<std::string> knownset;
    if (!known.empty()) if (FILE * f = fopen(known.c_str(), "r")) {
        char line[4096];
        while (fgets(line, sizeof line, f)) { // KNOWN property=<id> key=<key>
            std::string l = line; while (!l.empty() && (l.back() == '\n')) l.pop_back();
            std::string pre = "KNOWN property=" + prop + " key=";
            if (l.compare(0, pre.size(), pre) == 0) knownset.insert(l.substr(pre.size()));
        }
        fclose(f);
    }
    double tx = now() - t0;
    const int maxshow = getenv("HX_SHOW") ? atoi(getenv("HX_SHOW")) : 5;
    int violations = 0, unconfirmed = 0;
    std::set<std::string> knownhit;
    struct rusage ru;
    for (auto & f : fails) {
        if (violations >= maxshow) break;
        if (getenv("HX_GROUP")) { std::string g = spaces[f.space].show(f.idx); g = g.substr(0, g.find(" context ")); if (!seenkey.insert(g).second) continue; }
        if (knownset.count(f.key)) { knownhit.insert(f.key); continue; }
        std::string err; int kind = 0; Fail rec{};
        // replay before report: crashes once more, hangs with a longer limit, verdicts twice
        if (!solo(f.space, f.idx, spaces[f.space].limit * 3, err, kind, &rec)) { unconfirmed++; fprintf(stderr, "note: not reproduced alone: %s [%s] %s\n", spaces[f.space].name.c_str(), f.key, f.msg); continue; }
        if (kind == 0 && !solo(f.space, f.idx, spaces[f.space].limit * 3, err, kind, &rec)) { unconfirmed++; continue; }
        violations++;
        std::string path = replaydir + fmt("/%s-%s-%llu.txt", prop.c_str(), spaces[f.space].name.c_str(), (unsigned long long) f.idx);
        if (FILE * h = fopen(path.c_str(), "w")) {
            fprintf(h, "tier=%s\nspace=%s\nindex=%llu\npart=%s\n%scase: %s\n%s\n%s\n", tier.c_str(), spaces[f.space].name.c_str(), (unsigned long long) f.idx, part.c_str(),
                spaces[f.space].path ? ("path=" + spaces[f.space].path(f.idx) + "\n").c_str() : "", spaces[f.space].show(f.idx).c_str(), kind == 0 ? rec.msg : kind == 1 ? "crash" : "hang", err.c_str());
            fclose(h);
        }
        printf("VIOLATION property=%s replay=%s\n", prop.c_str(), path.c_str());
        printf("  %s\n  %s\n", spaces[f.space].show(f.idx).substr(0, 1500).c_str(), kind == 0 ? rec.msg : (std::string(kind == 1 ? "crash: " : "hang ") + err.substr(0, 1500)).c_str());
    }
    for (auto & k : knownhit) printf("KNOWN-FINDING: property=%s %s\n", prop.c_str(), k.c_str());

    uint64_t distinct = 0, states = 0;
    for (uint64_t i = 0; i < BITS / 64; i++) {
        distinct += __builtin_popcountll(((uint64_t *) sh->outcome)[i]);
        states += __builtin_popcountll(((uint64_t *) sh->state)[i]);
    }
    uint64_t ev = 0; bool exhaustive = !cut;
    std::string sps = "[";
    std::vector<std::string> samples;
    for (size_t s = 0; s < spaces.size(); s++) {
        if (!only.empty() && !only.count(spaces[s].name)) { exhaustive = false; continue; }
        uint64_t d = sh->done[s];
        ev += d;
        if (spaces[s].dyn) { if (sh->stop) continue; spaces[s].size = spaces[s].sz(); if (!spaces[s].size) continue; }
        if (sps.size() > 1) sps += ",";
        sps += fmt("{\"name\":%s,\"size\":%llu,\"explored\":%llu}", jstr(spaces[s].name).c_str(), (unsigned long long) spaces[s].size, (unsigned long long) d);
        if (samples.size() < 12) { samples.push_back(spaces[s].show(spaces[s].size / 3)); if (spaces[s].size > 2) samples.push_back(spaces[s].show(spaces[s].size - 1)); }
    }
    sps += "]";
    if (violations) exhaustive = false;
    for (auto & e : explored) { auto r = e(); assumptions.push_back(r.first); printf("  %s\n", r.first.c_str()); if (r.second) exhaustive = false; }
    getrusage(RUSAGE_CHILDREN, &ru);
    printf("%s %s: %llu cases in %.1f s, %llu outcomes, %llu states, %llu transitions%s%s\n", prop.c_str(), tier.c_str(), (unsigned long long) ev, tx,
        (unsigned long long) distinct, (unsigned long long) states, (unsigned long long) sh->transitions.load(), capped ? " [time cap]" : "", unconfirmed ? " [unreproduced]" : "");
    if (!out.empty()) {
        FILE * h = fopen(out.c_str(), "w");
        if (!h) { perror(out.c_str()); return 3; }
        fprintf(h, "{\"evaluations\":%llu,\"distinct\":%llu,\"states\":%llu,\"transitions\":%llu,\"traces\":%llu,\"skipped\":%llu,\"exhaustive\":%s,\"capped\":%s,\"spaces\":%s,",
            (unsigned long long) ev, (unsigned long long) distinct, (unsigned long long) states, (unsigned long long) sh->transitions.load(), (unsigned long long) sh->traces.load(),
            (unsigned long long) sh->skipped.load(), exhaustive ? "true" : "false", capped ? "true" : "false", sps.c_str());
        for (auto & c : counters) fprintf(h, "%s:%llu,", jstr(c.second).c_str(), (unsigned long long) sh->counters[c.first].load());
        fprintf(h, "\"violations\":%d,\"rule\":%s,\"samples\":[", violations, jstr(rule).c_str());
        for (size_t i = 0; i < samples.size(); i++) fprintf(h, "%s%s", i ? "," : "", jstr(samples[i].substr(0, 600)).c_str());
        fprintf(h, "],\"assumptions\":[");
        for (size_t i = 0; i < assumptions.size(); i++) fprintf(h, "%s%s", i ? "," : "", jstr(assumptions[i]).c_str());
        fprintf(h, "]}\n");
        fclose(h);
    }
    return violations ? 1 : 0;
}

inline void Main::explore(std::string name, int depth, std::function<System *()> make, uint64_t maxstates, double limit) {
    auto map0 = [](size_t n) { void * p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(3); } return p; };
    Bfs * b = (Bfs *) map0(sizeof(Bfs));
    uint64_t cap = 1; while (cap < maxstates * 2) cap *= 2;
    auto * seen = (std::atomic<uint64_t> *) map0(cap * 8);
    uint8_t * paths = (uint8_t *) map0(maxstates * (depth + 1));   // the operations that first led to a state
    b->nstates = 1; for (auto & e : b->end) e = ~0ull;
    b->end[0] = 1;
    auto sys = new System *(nullptr);
    auto get = [=]() { if (!*sys) *sys = make(); return *sys; };
    uint64_t n = get()->nops();
    auto pathof = [=](int d, uint64_t idx) {
        uint64_t st = (d ? b->end[d - 1].load() : 0) + idx / n;
        std::vector<int> p(paths + st * (depth + 1), paths + st * (depth + 1) + d);
        p.push_back(idx % n);
        return p;
    };
    auto runp = [=](Case & c, const std::vector<int> & p, int d, bool store) {
        System * y = get();
        std::string err;
        y->reset();
        if (p.size() == 1) { // the initial state itself
            y->observe(err); y->finish(err);
            if (err.size()) { c.fail(self->prop.c_str(), "initially: " + err); return; }
            y->reset();
        }
        for (size_t i = 0; i < p.size(); i++) {
            bool last = i + 1 == p.size();
            bool ok = y->apply(p[i], err);
            if (err.size()) { c.fail(self->prop.c_str(), "after " + y->name(p[i]) + ": " + err); y->finish(err); return; }
            if (!ok) { c.skip(); break; }
            if (!last) continue;
            c.transitions();
            uint64_t h = y->print();
            c.state(h); c.outcome(h);
            if (!h) h = 1;
            y->observe(err);
            if (err.size()) { c.fail(self->prop.c_str(), "after " + y->name(p[i]) + ": " + err); y->finish(err); return; }
            if (!store || d + 1 >= 250 || d + 1 > depth) continue;
            for (uint64_t k = h & (cap - 1);; k = (k + 1) & (cap - 1)) {
                uint64_t v = seen[k].load();
                if (v == h) break;
                if (v) continue;
                if (b->nstates >= maxstates) { b->full = 1; break; }
                if (seen[k].compare_exchange_strong(v, h)) {
                    uint64_t st = b->nstates.fetch_add(1);
                    if (st >= maxstates) { b->nstates = maxstates; b->full = 1; break; }
                    for (int j = 0; j <= d; j++) paths[st * (depth + 1) + j] = p[j];
                    break;
                }
                k = (k - 1) & (cap - 1);
            }
        }
        y->finish(err);
        if (err.size()) c.fail(self->prop.c_str(), "after releasing everything: " + err);
        else c.trace();
    };
    auto text = [=](const std::vector<int> & p) { std::string s; for (int o : p) s += (s.empty() ? "" : "; ") + get()->name(o); return name + ": " + s; };
    for (int d = 0; d < depth; d++) {
        add(fmt("%s.depth%d", name.c_str(), d + 1), d ? 1 : n, [=](Case & c) { auto p = pathof(d, c.idx); runp(c, p, d, !c.solo); },
            [=](uint64_t i) { return d && b->end[d - 1] == ~0ull ? std::string() : text(pathof(d, i)); }, 16, limit);
        Space & sp = spaces.back();
        if (d) sp.dyn = [=]() {
            uint64_t x = ~0ull, want = b->nstates;
            b->end[d].compare_exchange_strong(x, want);
            return (b->end[d].load() - b->end[d - 1].load()) * n;
        };
        sp.path = [=](uint64_t i) { std::string s; for (int o : pathof(d, i)) s += fmt("%d,", o); return s; };
        sp.runpath = [=](Case & c, const std::string & s) {
            std::vector<int> p; for (const char * q = s.c_str(); *q;) { p.push_back(atoi(q)); while (*q && *q != ',') q++; if (*q) q++; }
            runp(c, p, d, false);
        };
    }
    explored.push_back([=]() {
        int last = 0; while (last < depth && b->end[last] != ~0ull) last++;
        bool closed = last > 0 && last < depth + 1 && !b->full && last >= 2 && b->end[last - 1] == b->end[last - 2] ;
        return std::make_pair(fmt("%s: %llu states%s", name.c_str(), (unsigned long long) b->nstates.load(), closed ? ", all that are reachable" : b->full ? ", stopped at the state limit" : fmt(", all within %d operations", depth).c_str()), b->full.load());
    });
}

// mixed radix helper
struct Mix {
    uint64_t v;
    explicit Mix(uint64_t x) : v(x) {}
    uint64_t pick(uint64_t n) { uint64_t r = v % n; v /= n; return r; }
    template <class T> const T & of(const std::vector<T> & l) { return l[pick(l.size())]; }
};
inline uint64_t ipow(uint64_t b, unsigned e) { uint64_t r = 1; while (e--) r *= b; return r; }
// all strings over an alphabet with length <= n, shortest first
inline uint64_t nstrings(uint64_t a, unsigned n) { uint64_t s = 0; for (unsigned i = 0; i <= n; i++) s += ipow(a, i); return s; }
inline std::vector<unsigned> nthseq(uint64_t idx, uint64_t a) {
    unsigned len = 0; uint64_t c = 1;
    while (idx >= c) { idx -= c; c *= a; len++; }
    std::vector<unsigned> r(len);
    for (unsigned i = 0; i < len; i++) { r[len - 1 - i] = idx % a; idx /= a; }
    return r;
}
}
