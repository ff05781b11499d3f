// P24: the command line tool, as a process, against the library, in this one
#include "hx.hpp"
#include "suite.hpp"
#include <fcntl.h>
#include <spawn.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <thread>
#include "clishim.h"
using namespace hx; using B = std::string; typedef std::vector<B> L;
extern char ** environ;
static B cli, top, dir;     // dir: this process's own
struct Ran { int status; B out, err; };
static B slurp(int fd) { B s; off_t n = lseek(fd, 0, SEEK_END); s.resize(n); for (off_t o = 0; o < n;) { ssize_t k = pread(fd, &s[o], n - o, o); if (k <= 0) break; o += k; } return s; }
static void put(const B & p, const B & c) { FILE * f = fopen(p.c_str(), "wb"); if (!f) { perror(p.c_str()); exit(3); } fwrite(c.data(), 1, c.size(), f); fclose(f); }
enum { IN_NONE, IN_FILE, IN_PIPE };
static Ran run(const L & args, const B & in, int how, const char * outdev = nullptr) {
    static int o = -1, e = -1;
    if (o < 0) { o = memfd_create("o", MFD_CLOEXEC); e = memfd_create("e", MFD_CLOEXEC); }
    if (ftruncate(o, 0) || ftruncate(e, 0)) exit(3);
    lseek(o, 0, SEEK_SET); lseek(e, 0, SEEK_SET);
    int i = -1, pp[2] = {-1, -1};
    if (how == IN_PIPE) { if (pipe2(pp, O_CLOEXEC)) exit(3); i = pp[0]; }
    else { i = how == IN_NONE ? open("/dev/null", O_RDONLY | O_CLOEXEC) : memfd_create("i", MFD_CLOEXEC); if (how == IN_FILE) { for (size_t k = 0; k < in.size();) { ssize_t n = write(i, in.data() + k, in.size() - k); if (n <= 0) exit(3); k += n; } lseek(i, 0, SEEK_SET); } }
    int od = o; if (outdev) od = open(outdev, O_WRONLY | O_CLOEXEC);
    posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_adddup2(&fa, i, 0); posix_spawn_file_actions_adddup2(&fa, od, 1); posix_spawn_file_actions_adddup2(&fa, e, 2);
    posix_spawn_file_actions_addchdir_np(&fa, dir.c_str());
    std::vector<char *> av; av.push_back((char *) "handlebarsc"); for (auto & a : args) av.push_back((char *) a.c_str()); av.push_back(nullptr);
    pid_t p; if (posix_spawn(&p, cli.c_str(), &fa, nullptr, av.data(), environ)) { perror(cli.c_str()); exit(3); }
    posix_spawn_file_actions_destroy(&fa); close(i); if (outdev) close(od);
    std::thread feeder;
    if (how == IN_PIPE) feeder = std::thread([&]() { for (size_t k = 0; k < in.size();) { ssize_t n = write(pp[1], in.data() + k, std::min<size_t>(in.size() - k, 700)); if (n <= 0) break; k += n; } close(pp[1]); });
    Ran r; waitpid(p, &r.status, 0);
    if (feeder.joinable()) feeder.join();
    r.out = slurp(o); r.err = slurp(e);
    return r;
}
static B brief(const B & s) { return s.size() < 300 ? "'" + esc(s) + "'" : "'" + esc(s.substr(0, 140)) + "...' (" + fmt("%zu bytes)", s.size()); }
static B shown(const Ran & r) { return (WIFSIGNALED(r.status) ? fmt("killed by signal %d", WTERMSIG(r.status)) : fmt("exit %d", WEXITSTATUS(r.status))) + ", output " + brief(r.out) + ", errors " + brief(r.err); }
static bool succeeded(const Ran & r) { return WIFEXITED(r.status) && WEXITSTATUS(r.status) == 0; }
static bool failed(const Ran & r) { return WIFEXITED(r.status) && WEXITSTATUS(r.status) != 0 && WEXITSTATUS(r.status) != 66 && r.err.find("Sanitizer") == B::npos && r.err.find("runtime error") == B::npos; }
// what a module printed depends on besides the template: when and where it was made
static B masked(B s) { for (const char * k : {"HASH: ", "ADDR: ", "TS: "}) { size_t p = s.find(k); if (p == B::npos || (p && s[p - 1] != '\n')) return s; p += strlen(k); size_t e = s.find('\n', p); s.replace(p, e - p, "*"); } return s; }
static const char * modes[] = {"--execute", "--lex", "--parse", "--compile", "--module"};
static const char * flagnames[] = {"compat", "known_helpers_only", "string_params", "track_ids", "no_escape", "ignore_standalone", "alternate_decorators", "strict", "assume_objects", "mustache_style_lambdas"};
static unsigned long flagbits(int set) { static const int bit[] = {0, 3, 1, 2, 3, 8, 9, 10, 11, 12}; unsigned long f = 0; for (int i = 0; i < 10; i++) if (set >> i & 1) f |= 1ul << (i == 1 ? 4 : bit[i]); return f; }
static B flaglist(int set) { B s; for (int i = 0; i < 10; i++) if (set >> i & 1) s += (s.size() ? "," : "") + B(flagnames[i]); return s; }
enum { T_ARG, T_T, T_TEMPLATE, T_EQ, T_STDIN, T_STDIN_T, T_PIPE, NT };
enum { D_NONE, D_JSON, D_YAML, D_YML, D_STDIN, D_OTHER, ND };
struct Use {
    int mode = 0; bool say = true; B tmpl; int tway = T_ARG; int dway = D_NONE; B data; int flags = 0; bool convert = true, loader = false; B ext = ".hbs"; int newline = 0 /* 1 -n, 2 --no-newline */; const char * pool = nullptr, * runs = nullptr; bool optslast = false;
    B show() const { return fmt("%s%s template %s by %d%s%s%s%s%s%s%s", say ? modes[mode] : "", optslast ? " options last" : "", brief(tmpl).c_str(), tway, dway ? fmt(" data %s by %d", brief(data).c_str(), dway).c_str() : "", flags ? (" flags " + flaglist(flags)).c_str() : "", convert ? "" : " no convert", loader ? (" loader " + ext).c_str() : "", newline ? " no newline" : "", pool ? fmt(" pool %s", pool).c_str() : "", runs ? fmt(" runs %s", runs).c_str() : ""); }
};
static void mine() {
    static int owner = 0;
    if (owner == getpid()) return;
    owner = getpid(); dir = top + fmt("/%d", owner);
    mkdir(dir.c_str(), 0700); mkdir((dir + "/parts").c_str(), 0700); mkdir((dir + "/parts/sub").c_str(), 0700);
    put(dir + "/parts/p.hbs", "[{{n}}]"); put(dir + "/parts/p", "(no extension {{n}})"); put(dir + "/parts/p.x", "x{{> q}}"); put(dir + "/parts/q.x", "qx\n"); put(dir + "/parts/sub/p.hbs", "sub {{> p}}\n"); put(dir + "/parts/ml.hbs", "1 {{n}}\n2\n"); put(dir + "/parts/bad.hbs", "{{#if}}"); put(dir + "/parts/empty.hbs", "");
}
static void check(Case & c, const Use & u) {
    mine();
    L a, opt; B in; int how = IN_NONE;
    if (u.say) opt.push_back(modes[u.mode]);
    B tf = dir + "/t.hbs"; if (u.tway <= T_EQ) put(tf, u.tmpl);
    L tl;
    switch (u.tway) { case T_ARG: tl = {tf}; break; case T_T: tl = {"-t", "t.hbs"}; break; case T_TEMPLATE: tl = {"--template", tf}; break; case T_EQ: tl = {"--template=" + tf}; break; case T_STDIN: tl = {"-"}; in = u.tmpl; how = IN_FILE; break; case T_STDIN_T: tl = {"-t", "-"}; in = u.tmpl; how = IN_FILE; break; case T_PIPE: tl = {"-"}; in = u.tmpl; how = IN_PIPE; break; }
    clreq q; memset(&q, 0, sizeof q); q.mode = u.mode; q.tmpl = u.tmpl.data(); q.tlen = u.tmpl.size(); q.flags = flagbits(u.flags); q.data = u.data.data(); q.dlen = u.data.size(); q.convert = u.convert; q.newline = !u.newline;
    if (u.dway) { static const char * ext[] = {"", "d.json", "d.yaml", "d.yml", "-", "data"}; B df = u.dway == D_STDIN ? B("-") : (u.dway == D_YML ? B() : dir + "/") + ext[u.dway]; if (u.dway == D_STDIN) { in = u.data; how = IN_PIPE; } else put(u.dway == D_YML ? dir + "/" + df : df, u.data); q.kind = u.dway == D_YAML || u.dway == D_YML ? CD_YAML : CD_JSON; if (u.flags & 1 || u.convert) { opt.push_back("-D"); opt.push_back(df); } else opt.push_back("--data=" + df); }
    if (u.flags) { opt.push_back("--flags"); opt.push_back(flaglist(u.flags)); }
    if (!u.convert) opt.push_back("--no-convert-input");
    B pd = dir + "/parts";
    if (u.loader) { opt.push_back("--partial-loader"); opt.push_back("--partial-path"); opt.push_back(pd); if (u.ext != ".hbs") { opt.push_back("--partial-ext=" + u.ext); } q.dir = pd.c_str(); q.ext = u.ext.c_str(); }
    if (u.newline) opt.push_back(u.newline == 1 ? "-n" : "--no-newline");
    if (u.pool) { opt.push_back("--pool-size"); opt.push_back(u.pool); }
    if (u.runs) { opt.push_back("--run-count"); opt.push_back(u.runs); }
    if (u.optslast) { a = tl; a.insert(a.end(), opt.begin(), opt.end()); } else { a = opt; a.insert(a.end(), tl.begin(), tl.end()); }
    bool nodata = u.dway && u.data.empty();
    clres r; memset(&r, 0, sizeof r);
    if (nodata) q.kind = CD_NONE;
    cl_run(&q, &r);
    // an empty file is refused (tests/test_executable.bats), an empty standard input is not
    bool empty = (u.tway <= T_EQ && u.tmpl.empty()) || (u.mode == CM_EXECUTE && u.dway && u.dway != D_STDIN && u.data.empty());
    Ran x = run(a, in, how);
    c.trace();
    B want(r.out ? r.out : "", r.len); free(r.out);
    if (u.mode == CM_MODULE) { want = masked(want); x.out = masked(x.out); }
    if (empty) { if (!failed(x) || x.out.size() || x.err.empty()) c.fail("P24", "an empty file: expected an error; got " + shown(x)); else c.outcome(hash(B("empty"))); return; }
    if (r.ok) {
        if (!succeeded(x) || x.out != want || x.err.size()) c.fail("P24", "expected output " + brief(want) + "; got " + shown(x));
        else c.outcome(hash(x.out));
    } else {
        if (!failed(x) || x.out.size() || x.err.find(r.msg) == B::npos) c.fail("P24", "expected error '" + esc(r.msg) + "'; got " + shown(x));
        else c.outcome(hash(x.err));
    }
}
int main(int argc, char ** argv) {
    Main m; m.prop = "P24";
    m.rule = "every use of the command line tool in the spaces below run as a process: exit status, output and errors compared with what the library gives in this process; non-trivial: distinct outputs and errors";
    m.parse(argc, argv);
    bool th = m.thorough();
    cli = getenv("HB_CLI") ? getenv("HB_CLI") : ""; if (cli.empty()) { fprintf(stderr, "HB_CLI is not set\n"); return 3; }
    top = B(access("/dev/shm", W_OK) ? "/tmp" : "/dev/shm") + fmt("/hbsp24.%d", getpid()); mkdir(top.c_str(), 0700);
    const B J = "{\"n\":\"N<&>\",\"s\":\"p\",\"a\":{\"n\":\"AN\",\"b\":{\"n\":\"ABN\"}},\"l\":[1,\"two\",null],\"m\":{\"x\":{\"n\":\"mx\"},\"y\":7}}";
    const B Y = "n: N<&>\ns: p\na:\n  n: AN\n  b: {n: ABN}\nl: [1, two]\nm:\n  x: {n: mx}\n  y: 7\n";
    auto uses = [&](const char * name, std::vector<Use> us) { auto * v = new std::vector<Use>(std::move(us)); m.add(name, v->size(), [=](Case & c) { check(c, (*v)[c.idx]); }, [=](uint64_t i) { return (*v)[i].show(); }, 16, 60); };
    // {{{ every construct
    { std::vector<Use> us;
      L ts = suite::templates(1);
      for (auto & t : ts) { if (t.find("log") != B::npos || t.find("{{log") != B::npos) continue;
          for (int mode = 0; mode < 5; mode++) for (int f : th ? std::vector<int>{0, 1, 16, 128, 129} : std::vector<int>{0, 1}) for (int w : {T_ARG, T_PIPE}) { if (!th && ((mode && w == T_PIPE) || (mode && f))) continue;
              Use u; u.mode = mode; u.tmpl = t; u.dway = D_JSON; u.data = J; u.flags = f; u.loader = true; u.tway = w; us.push_back(u); } }
      uses("constructs", us); }
    // }}}
    // {{{ ways of giving template and data, and what does not depend on the template
    { std::vector<Use> us;
      for (B t : {"{{n}}\n", "{{#each l}}{{this}},{{/each}}{{> p}}", "{{{n}}}{{nothing}}", "{{#if}}", "", "plain"}) for (int mode = 0; mode < 5; mode++) for (int w = 0; w < NT; w++) for (int d = 0; d < ND; d++) {
          if (d == D_STDIN && w >= T_STDIN) continue;
          if (mode && d) continue;
          for (bool say : {true, false}) for (int nl = 0; nl < 3; nl++) for (bool last : {false, true}) for (bool ld : {false, true}) {
              if ((!say && mode) || (mode && nl > 1)) continue;
              if (!th && ((last && nl) || (!say && ld))) continue;
              Use u; u.mode = mode; u.say = say; u.tmpl = t; u.tway = w; u.dway = d; u.data = d == D_YAML || d == D_YML ? Y : J; u.newline = nl; u.optslast = last; u.loader = ld; us.push_back(u);
          }
      }
      uses("ways", us); }
    // }}}
    // {{{ data
    { std::vector<Use> us;
      L js = {"{}", "[]", "null", "0", "1", "\"\"", "\"t\"", "true", "false", "{\"n\":null}", "{\"n\":[]}", "{\"n\":\"\\u0000\"}", "{\"n\":1.5}", "{\"n\":12345678901234567890}", "", " ", "\n", "{", "}", "{\"n\"}", "[1,", "[1,]", "x", "{\"n\":1}x", "{\"n\":\"\xc3\xa9\"}", "{\"n\":\"\xff\"}", "[{\"n\":1}]", J, B("{\"n\":1}\0", 8), " {\"n\" : 2 } \n"};
      L ys = {"{}", "[]", "n: 1", "n:", "---\nn: a\n", "--- []", "--- false", "--- 0", "---\n", "", "~", "- 1\n- 2", "n: [", "n: 'x", "\"n\": \"q\"", "n: |\n  a\n  b\n", "? a\n: b", "n: !!str 1", "n: &x 1\nm: *x", "n: *x", "a\nb: c", "\t", "n: 1\n---\nn: 2\n", J, Y};
      for (auto & t : {"{{n}}|{{#each this}}{{@key}}={{this}};{{/each}}|{{#if this}}y{{else}}n{{/if}}|{{l.[1]}}", "{{this}}"}) {
          for (auto & d : js) for (int w : {D_JSON, D_STDIN, D_OTHER}) for (bool cv : {true, false}) { Use u; u.tmpl = t; u.dway = w; u.data = d; u.convert = cv; us.push_back(u); }
          for (auto & d : ys) for (int w : {D_YAML, D_YML}) for (bool cv : {true, false}) { Use u; u.tmpl = t; u.dway = w; u.data = d; u.convert = cv; us.push_back(u); }
      }
      uses("data", us); }
    // }}}
    // {{{ options
    { std::vector<Use> us;
      L ts = {"{{n}}{{#a}}{{s}}{{zz.n}}{{/a}}{{> p}}{{#l}}{{.}}{{/l}}\n", "{{n}}{{a.zz}}{{zz}}", "{{=<% %>=}}<% n %>", "{{{n}}}{{rec 1}}", "  {{#if n}}\n y\n {{/if}}\n"};
      for (auto & t : ts) for (int f = 0; f < 1024; f++) { if (!th && __builtin_popcount(f) > 3 && __builtin_popcount(f) < 9) continue; Use u; u.tmpl = t; u.flags = f; u.loader = true; u.dway = D_JSON; u.data = J; us.push_back(u); }
      for (auto & t : ts) for (const char * p : {"0", "1", "64", "1000", "100000", "2097152", "100000000"}) for (const char * r : {"0", "1", "2", "7", "-3"}) for (int f : {0, 1}) { Use u; u.tmpl = t; u.flags = f; u.loader = true; u.dway = D_JSON; u.data = J; u.pool = p; u.runs = r; us.push_back(u); }
      for (B t : {"{{> p}}", "{{> sub/p}}", "{{> ml}}", " {{> ml}}\n", "{{> bad}}", "{{> empty}}", "{{> nope}}", "{{#> nope}}d{{n}}{{/nope}}", "{{> (lookup . 's')}}"}) for (B e : {".hbs", "", ".x", ".none"}) for (bool ld : {true, false}) for (int f : {0, 1}) { Use u; u.tmpl = t; u.flags = f; u.loader = ld; u.ext = e; u.dway = D_JSON; u.data = J; us.push_back(u); }
      uses("options", us); }
    // }}}
    // {{{ sizes
    { auto * ns = new std::vector<size_t>;
      for (size_t n = 1; n <= (th ? 9000 : 1100); n++) ns->push_back(n);
      for (size_t base : {2048, 4096, 8192, 65536, 131072}) for (int d = -3; d <= 3; d++) ns->push_back(base + d);
      for (size_t n : {1000000, 2097152 - 1, 2097152, 3000000}) ns->push_back(n);
      static const int every[] = {0, 1, 2, 80, 1023, 1024};
      const int W = 3, E = 6;
      auto use = [=](uint64_t i) { Use u; size_t n = (*ns)[i / (W * E)]; int e = every[i / W % E]; u.tway = std::vector<int>{T_ARG, T_STDIN, T_PIPE}[i % W]; u.tmpl.resize(n); for (size_t k = 0; k < n; k++) u.tmpl[k] = e && k % e == e - 1 ? '\n' : 'a' + k % 23; if (i & 1) u.mode = CM_EXECUTE; if (n > 10) u.tmpl.replace(n / 2, 5, "{{n}}"); if (i % 2) { u.dway = u.tway == T_ARG ? D_STDIN : D_OTHER; u.data = "{\"n\":\"" + B(n, 'd') + "\"}"; } return u; };
      m.add("sizes", ns->size() * W * E, [=](Case & c) { check(c, use(c.idx)); }, [=](uint64_t i) { return fmt("%zu bytes, ", (*ns)[i / (W * E)]) + use(i).show(); }, 16, 120); }
    // }}}
    // {{{ all bytes
    { auto use = [=](uint64_t i) { static const char * f[] = {"$", "a$b", "{{n$}}", "{{[$]}}", "$$\n"}; Use u; B t = f[i % 5]; B b(1, (char) (i / 5 % 256)); for (size_t p = 0; (p = t.find('$', p)) != B::npos; p++) t.replace(p, 1, b); u.tmpl = t; u.tway = std::vector<int>{T_ARG, T_STDIN, T_PIPE}[i / 1280 % 3]; u.mode = i / 3840; if (!u.mode) { u.dway = D_OTHER; u.data = J; } return u; };
      m.add("bytes", 1280 * 3 * (th ? 5 : 2), [=](Case & c) { check(c, use(c.idx)); }, [=](uint64_t i) { return use(i).show(); }, 16, 60);
      if (th) { auto two = [=](uint64_t i) { Use u; u.tmpl = B(1, (char) (i & 255)) + (char) (i >> 8 & 255); u.tway = T_PIPE; u.mode = i >> 16 ? CM_LEX : CM_EXECUTE; return u; }; m.add("two-bytes", 2 << 16, [=](Case & c) { check(c, two(c.idx)); }, [=](uint64_t i) { return two(i).show(); }, 64, 60); } }
    // }}}
    // {{{ wrong uses: an error, a message, no output
    { struct Wrong { L a; B in; int how; const char * out; };
      auto * ws = new std::vector<Wrong>;
      for (int mode = 0; mode < 5; mode++) for (B t : {"$/none", "$", "$/parts", "", "$/fifo"}) for (B o : {"", "-t"}) { L a = {modes[mode]}; if (t == "$/fifo") continue; if (o.size()) a.push_back(o); if (t.size()) a.push_back(t); else if (o.size()) a.push_back(""); ws->push_back({a, "", IN_NONE, nullptr}); }
      for (B o : {"--nonsense", "--templat3", "-x", "-q", "--flags", "-t", "-D", "--pool-size", "--partial-path"}) for (bool last : {true, false}) { L a = {"--execute"}; if (last) { a.push_back("$/t.hbs"); a.push_back(o); } else { if (o[0] == '-' && (o == "--nonsense" || o == "--templat3" || o == "-x" || o == "-q")) { a.push_back(o); a.push_back("$/t.hbs"); } else continue; } ws->push_back({a, "", IN_NONE, nullptr}); }
      for (B d : {"$/none.json", "$", "$/parts", "$/parts/p.hbs", "$/none.yaml", "$/bad.yaml", "$/bad.json"}) ws->push_back({{"$/t.hbs", "-D", d}, "", IN_NONE, nullptr});
      for (B t : {"{{> p}}", "{{#if}}", "{{", "{{fail 1}}"}) for (bool loader : {false, true}) { L a = {"-"}; if (loader) { a.push_back("--partial-loader"); a.push_back("--partial-path=$/nowhere"); } ws->push_back({a, t, IN_PIPE, nullptr}); }
      for (int mode = 0; mode < 5; mode++) ws->push_back({{modes[mode], "$/t.hbs"}, "", IN_NONE, "/dev/full"});
      for (size_t n : {10, 4096, 70000}) ws->push_back({{"-"}, B(n, 'x'), IN_PIPE, "/dev/full"});
      auto name = [=](uint64_t i) { auto & w = (*ws)[i]; B s; for (auto & a : w.a) s += (s.size() ? " " : "") + (a.empty() ? B("''") : a); if (w.in.size()) s += " with input " + brief(w.in); if (w.out) s += B(" > ") + w.out; return s; };
      m.add("wrong", ws->size(), [=](Case & c) {
          mine(); put(dir + "/t.hbs", "text {{n}}\n"); put(dir + "/bad.yaml", "n: ["); put(dir + "/bad.json", "{\"n\":");
          auto & w = (*ws)[c.idx]; L a = w.a; for (auto & s : a) { size_t p = s.find('$'); if (p != B::npos) s.replace(p, 1, dir); }
          Ran x = run(a, w.in, w.how, w.out);
          c.trace(); c.outcome(x.err);
          if (!failed(x) || x.out.size() || x.err.empty()) c.fail("P24", "expected an error; got " + shown(x));
      }, name, 4, 60);
      // and those that succeed without a template
      auto * is = new std::vector<L>{{"--help"}, {"-h"}, {"--version"}, {"-V"}, {"--help", "none"}, {"--execute", "-h"}};
      m.add("information", is->size(), [=](Case & c) { mine(); Ran x = run((*is)[c.idx], "", IN_NONE); c.outcome(x.out); if (!succeeded(x) || x.out.empty() || x.err.size()) c.fail("P24", "expected a text; got " + shown(x)); }, [=](uint64_t i) { B s; for (auto & a : (*is)[i]) s += a + " "; return s; }, 1, 60);
      // a pipe given as a file
      m.add("fifo", 20, [=](Case & c) {
          mine(); B f = dir + "/fifo"; unlink(f.c_str()); mkfifo(f.c_str(), 0600);
          B t = c.idx % 10 / 2 == 0 ? "text" : B(c.idx % 10 / 2 * 30000, 'x'); bool data = c.idx & 1;
          std::thread w([&]() { int d = open(f.c_str(), O_WRONLY); B s = data ? "{\"n\":\"" + t + "\"}" : t; for (size_t k = 0; k < s.size();) { ssize_t n = write(d, s.data() + k, s.size() - k); if (n <= 0) break; k += n; } close(d); });
          put(dir + "/t.hbs", "{{n}}");
          Ran x = data ? run({dir + "/t.hbs", "-n", "-D", f}, "", IN_NONE) : run({"-n", "-t", f}, "", IN_NONE);
          int d = open(f.c_str(), O_RDONLY | O_NONBLOCK); w.join(); close(d);
          c.trace(); c.outcome(x.out);
          if (!succeeded(x) || x.out != t) c.fail("P24", "expected output " + brief(t) + "; got " + shown(x));
      }, [](uint64_t i) { return fmt("%s of %d bytes from a named pipe", i & 1 ? "data" : "template", i % 10 / 2 ? (int) (i % 10 / 2 * 30000) : 4); }, 1, 60);
    }
    // }}}
    signal(SIGPIPE, SIG_IGN);
    int r = m.go(argc, argv);
    if (top.size() > 8) { B cmd = "rm -rf '" + top + "'"; if (system(cmd.c_str())) {} }
    return r;
}
