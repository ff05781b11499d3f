// P27: every sequence of lookups, enumerations, renderings and changes on disk, on a directory partial loader
#include "hx.hpp"
#include <sys/stat.h>
#include <dirent.h>
#include <unistd.h>
#include "pldshim.h"
using namespace hx; using B = std::string;
static B top;
static plres rs;
static int fds() { int n = 0; DIR * d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
static void put(const B & p, const B & c) { FILE * f = fopen(p.c_str(), "wb"); if (!f) { perror(p.c_str()); exit(2); } fwrite(c.data(), 1, c.size(), f); fclose(f); }
static B all() { B s; for (int i = 0; i < 256; i++) s += (char) i; return s; }
static B noncurly() { B s; for (int i = 1; i < 256; i++) if (i != '{' && i != '\\') s += (char) i; return s; }
enum { FIND, COPY, ENUM, ITERFIND, RENDER, RENEW, DISK, MANY };
struct Op { int op; B a, b; B name; };
// what the loader should do
struct Model { B ext; std::vector<std::pair<B, B>> loaded; std::map<B, B> disk; };   // disk: path below dir -> content
struct Loader : System {
    B dir; int owner = 0, id;      // each process has its own directory
    B ext; std::vector<Op> ops; Model m; std::map<B, B> start; std::vector<B> names;
    int nops() override { return ops.size(); }
    B name(int o) override { return ops[o].name; }
    void reset() override {
        if (owner != getpid()) {
            owner = getpid(); dir = top + fmt("/%d.%d", id, owner);
            for (auto d : {"", "/sub", "/dir", "/dir.hbs"}) mkdir((dir + d).c_str(), 0700);
            m.disk.clear();
        }
        for (auto & f : m.disk) if (!start.count(f.first)) unlink((dir + "/" + f.first).c_str());
        for (auto & f : start) if (!m.disk.count(f.first) || m.disk[f.first] != f.second) put(dir + "/" + f.first, f.second);
        m = Model(); m.ext = ext; m.disk = start;
        pl_open(dir.c_str(), ext.c_str());
    }
    // nullptr: not a partial
    const B * load(const B & n) {
        for (auto & l : m.loaded) if (l.first == n) return &l.second;
        if (n.find('\0') != B::npos) return nullptr;
        B path = n + m.ext;
        while (path.size() && path[0] == '/') path.erase(0, 1);
        auto it = m.disk.find(path);
        if (it == m.disk.end() || it->second.empty()) return nullptr;      // an empty file is an error: tests/test_partial_loader.c says so
        m.loaded.push_back({n, it->second});
        return &m.loaded.back().second;
    }
    B entries(const std::vector<std::pair<B, B>> & l) { B s; for (auto & e : l) s += e.first + "\1" + e.second + "\2"; return s; }
    B got() { return B(rs.out, rs.len); }
    B text(const B & t, bool & ok, int depth = 0) {       // rendering of the few constructs used here
        B o; size_t i = 0;
        while (ok && i < t.size()) {
            if (t.compare(i, 2, "{{")) { o += t[i++]; continue; }
            size_t e = t.find("}}", i); B tag = t.substr(i + 2, e - i - 2); i = e + 2;
            if (tag == "n") o += "N&amp;";
            else { const B * p = load(tag.substr(2)); if (!p) { ok = false; break; } B c = *p; o += text(c, ok, depth + 1); }
        }
        return o;
    }
    void expect(const B & what, bool found, const B & c, B & err) {
        if (found ? rs.err || !rs.found : !rs.err) err = fmt("%s: %s, expected %s", what.c_str(), rs.err ? fmt("error %d '%s'", rs.err, rs.msg).c_str() : rs.found ? ("'" + esc(got()) + "'").c_str() : "nothing", found ? ("'" + esc(c) + "'").c_str() : "an error");
        else if (found && got() != c) err = what + ": got '" + esc(got()) + "', expected '" + esc(c) + "'";
        else if (!found && rs.err != 1) err = fmt("%s: error %d '%s', expected a plain error", what.c_str(), rs.err, rs.msg);
        else if (!found && (!rs.msg[0] || !strcmp(rs.msg, "(null)"))) err = what + ": no message";
    }
    bool apply(int o, B & err) override {
        const Op & p = ops[o];
        int f0 = fds();
        switch (p.op) {
            case FIND: case COPY: { const B * e = load(p.a); B c = e ? *e : ""; pl_find(p.a.data(), p.a.size(), p.op == COPY, &rs); expect(p.name, e, c, err); break; }
            case MANY: for (int i = 0, k = atoi(p.b.c_str()); i < 16 && err.empty(); i++) {
                B n = fmt("f%d", k + i); const B * e = load(n); B c = e ? *e : "";
                pl_find(n.data(), n.size(), 0, &rs); expect("find " + n, e, c, err);
            } break;
            case ENUM: pl_iter(-1, "", 0, &rs); if (rs.err || got() != entries(m.loaded)) err = fmt("%s: error %d, got '", p.name.c_str(), rs.err) + esc(got()) + "', expected '" + esc(entries(m.loaded)) + "'"; break;
            case ITERFIND: {
                int at = atoi(p.b.c_str()); auto snap = m.loaded; if (at >= (int) snap.size()) return false;
                load(p.a);
                pl_iter(at, p.a.data(), p.a.size(), &rs);
                // what is added while iterating may or may not be seen
                if (rs.err || (got() != entries(snap) && got() != entries(m.loaded))) err = fmt("%s: error %d, got '", p.name.c_str(), rs.err) + esc(got()) + "', expected '" + esc(entries(snap)) + "'";
                break;
            }
            case RENDER: case RENEW: {
                bool ok = true; B t = p.a;
                B e = text(t, ok);
                pl_render(t.data(), t.size(), p.op == RENEW, &rs);
                expect(p.name, ok, e, err); break;
            }
            case DISK: {
                auto it = m.disk.find(p.a);
                if (p.b == "-") { if (it == m.disk.end()) return false; unlink((dir + "/" + p.a).c_str()); m.disk.erase(it); }
                else { if (it != m.disk.end() && it->second == p.b) return false; put(dir + "/" + p.a, p.b); m.disk[p.a] = p.b; }
                break;
            }
        }
        if (err.empty() && fds() != f0) err = fmt("%s: %d files were left open", p.name.c_str(), fds() - f0);
        if (err.empty() && pl_count() != (long) m.loaded.size()) err = fmt("%s: count %ld, expected %zu", p.name.c_str(), pl_count(), m.loaded.size());
        return true;
    }
    uint64_t print() override { uint64_t h = 1; for (auto & l : m.loaded) h = hash(l.first + "\1" + l.second, h); h = hash(B("|"), h); for (auto & d : m.disk) h = hash(d.first + "\1" + d.second, h); return h; }
    void observe(B & err) override {
        // everything loaded is still read the same; then everything else
        pl_iter(-1, "", 0, &rs);
        if (rs.err || got() != entries(m.loaded)) { err = fmt("enumerating: error %d, got '", rs.err) + esc(got()) + "', expected '" + esc(entries(m.loaded)) + "'"; return; }
        if (!pl_type()) { err = "the loader is no map"; return; }
        auto n0 = m.loaded; for (auto & l : n0) { B c = l.second; pl_find(l.first.data(), l.first.size(), 0, &rs); expect("find " + esc(l.first), true, c, err); if (err.size()) return; }
        for (auto & n : names) { const B * e = load(n); B c = e ? *e : ""; pl_find(n.data(), n.size(), 0, &rs); expect("afterwards find " + esc(n), e, c, err); if (err.size()) return; }
    }
    void finish(B & err) override { pl_close(); (void) err; }
};
int main(int argc, char ** argv) {
    Main m; m.prop = "P27";
    m.rule = "every operation (lookups, also through a copy and while iterating; enumeration; renderings; changes on disk) applied in every reachable state of a directory loader, its content compared with a dictionary filled from the files as they were at first use, and the files open before and after counted; non-trivial: distinct states";
    m.parse(argc, argv);
    bool th = m.thorough();
    top = B(access("/dev/shm", W_OK) ? "/tmp" : "/dev/shm") + fmt("/hbsp27.%d", getpid()); mkdir(top.c_str(), 0700);
    B big(70000, 'x'); for (size_t i = 0; i < big.size(); i += 97) big[i] = '\n';
    auto files = [&](const B & x) {
        std::map<B, B> d;
        d["p" + x] = "<p{{n}}>"; d["q" + x] = "<q{{> p}}>"; d["sub/x" + x] = "sub\r\n"; d["e" + x] = ""; d["bin" + x] = noncurly(); d["one" + x] = "\n"; d["big" + x] = big;
        d["a b" + x] = "blank"; d["p.q" + x] = "dot"; d["\xc3\xa9" + x] = "utf8"; d["all" + x] = all();
        if (x == ".m") for (int i = 0; i < 64; i++) d[fmt("f%d", i) + x] = fmt("file %d", i);
        if (x.size()) d["plain"] = "no extension"; else d["p.hbs"] = "other";
        return d;
    };
    auto make = [&](const B & x, std::vector<B> names, std::vector<B> renders, bool disk) {
        auto * l = new Loader; l->ext = x; l->start = files(x); l->names = names;
        auto add = [&](int op, B a, B b, B n) { l->ops.push_back({op, a, b, n}); };
        for (auto & n : names) add(FIND, n, "", "find '" + (n.size() > 40 ? fmt("%zu bytes", n.size()) : esc(n)) + "'");
        add(COPY, names[0], "", "find '" + names[0] + "' through a copy");
        add(ENUM, "", "", "enumerate");
        add(ITERFIND, names[1], "0", "find '" + names[1] + "' at the first entry"); add(ITERFIND, "zz", "1", "find 'zz' at the second entry");
        for (auto & r : renders) add(RENDER, r, "", "render '" + r + "'");
        if (renders.size()) add(RENEW, renders[0], "", "render '" + renders[0] + "' with a new renderer");
        if (x == ".m") for (int i = 0; i < 64; i += 16) add(MANY, "", fmt("%d", i), fmt("find f%d to f%d", i, i + 15));
        if (disk) { B p = names[0] + x; add(DISK, p, "<new{{n}}>", "rewrite " + p); add(DISK, p, "-", "delete " + p); add(DISK, p, "", "empty " + p); add(DISK, "no" + x, "now", "create no" + x); }
        return l;
    };
    int nid = 0;
    auto run = [&](const char * space, const B & x, std::vector<B> names, std::vector<B> renders, bool disk, int quick, int deep) {
        int id = nid++;
        m.explore(space, th ? deep : quick, [=]() -> System * { auto * l = make(x, names, renders, disk);
            l->id = id; return l; });
    };
    B longname(5000, 'n'), nul("plain\0x", 7), nulend("plain\0", 6);
    run("files", ".hbs", {"p", "q", "sub/x", "bin", "no"}, {"{{> p}}", "{{> q}}", "{{> no}}"}, true, 6, 12);
    run("no-extension", "", {"p", "q", "p.hbs", "no", "dir"}, {"{{> q}}"}, true, 7, 12);
    run("odd-names", ".hbs", {"p", "e", "", "dir", "plain", "p.hbs", "p.q", "a b", "\xc3\xa9", "no/p", "/p", "one", longname, nul, nulend}, {"{{> p.q}}", "{{> e}}"}, false, 5, 8);
    run("content", ".hbs", {"p", "all", "bin", "big", "one", "sub/x"}, {"{{> bin}}", "{{> sub/x}}", "{{> one}}"}, false, 5, 8);
    run("many", ".m", {"p", "q", "no"}, {"{{> q}}"}, true, 5, 8);
    int r = m.go(argc, argv);
    if (top.size() > 8) { B cmd = "rm -rf '" + top + "'"; if (system(cmd.c_str())) {} }
    return r;
}
