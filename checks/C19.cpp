// The Python binding from end to end: sessions of one or two contexts, several inputs, several workers.
#include "load.hpp"
#include "machine.hpp"
#include "derived.hpp"
#include "proc.hpp"
#include <sys/prctl.h>
using namespace Centaurus;

// Runs the session; whatever it leaves running is ended with it. False: it took too long.
static std::string kept;                // a shared object a session left
static bool session(const std::string& script, const std::string& result, double limit, int& status)
{
    kept.clear();
    pid_t pid = fork();
    if (!pid)
    {
        setpgid(0, 0);
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        int null = open("/dev/null", O_RDWR), err = open((result + ".err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        dup2(null, 0);
        dup2(null, 1);
        dup2(err, 2);
        for (int fd = 3; fd < 64; fd++) close(fd);
        for (int s = 1; s < 32; s++) signal(s, SIG_DFL);
        rlimit rl = {RLIM_INFINITY, RLIM_INFINITY};
        setrlimit(RLIMIT_CPU, &rl);
        std::string lib = env_path("libpycentaurus"), repo = getenv("VERIF_REPO") ? getenv("VERIF_REPO") : "/repo";
        setenv("CENTAURUS_DL_PATH", lib.substr(0, lib.rfind('/')).c_str(), 1);
        setenv("PYTHONPATH", (repo + "/src/python").c_str(), 1);
        setenv("PYTHONDONTWRITEBYTECODE", "1", 1);
        setenv("PYTHONIOENCODING", "utf-8", 1);
        std::string py = std::string(getenv("VERIF_HOME")) + "/pbt/py/session.py";
        execlp("python3", "python3", py.c_str(), script.c_str(), result.c_str(), (char *)nullptr);
        _exit(127);
    }
    setpgid(pid, pid);
    double until = pbt::now() + limit;
    bool done = false;
    while (!(done = waitpid(pid, &status, WNOHANG) == pid) && pbt::now() < until) usleep(3000);
    kill(-pid, SIGKILL);
    if (!done) waitpid(pid, &status, 0);
    for (std::string n : {"Window", "SlaveLock"})
        for (std::string pre : {"/dev/shm/", "/dev/shm/sem."})
            if (!unlink((pre + "{57DF45C9-6D0C-4DD2-9B41-B71F8CF66B13}Centaurus[" + std::to_string(pid) + "]" + n).c_str()) && done && !status) kept = pre + "..." + n;
    return done;
}
static int gives(uint32_t seed, const std::string& name, const std::string& text)
{
    uint32_t h = 2166136261u ^ seed;
    std::string s = name + std::string(1, '\0') + (text.size() > 64 ? text.substr(text.size() - 64) : text) + std::string(1, '\0') + std::to_string(text.size());
    for (unsigned char b : s) h = (h ^ b) * 16777619u;
    h ^= h >> 15;
    return h % 20;
}
static std::string hex(const std::string& s)
{
    std::string r;
    for (unsigned char c : s) { r += "0123456789abcdef"[c >> 4]; r += "0123456789abcdef"[c & 15]; }
    return r;
}
// What a serial reduction of the markers gives: one line per call, the value of the last node closed.
struct Serial { std::vector<std::string> calls; std::string value = "N"; bool complete = false; };
static Serial serial(const std::string& input, const std::vector<uint64_t>& marks, const std::vector<std::string>& handler, uint32_t seed, bool log)
{
    struct Open { size_t start; std::string kids; };
    std::vector<Open> st(1);
    Serial r;
    for (uint64_t m : marks)
    {
        int id = (int)(m >> 48 & 0x7fff);
        size_t pos = m & 0xffffffffffffull;
        if (m >> 63) { st.push_back(Open{pos, ""}); continue; }
        Open o = st.back();
        st.pop_back();
        std::string text = input.substr(o.start, pos - o.start), node = "(" + handler[id] + ":" + hex(text) + o.kids + ")";
        if (log) r.calls.push_back(node);
        int v = gives(seed, handler[id], text);
        r.value = v < 3 ? "N" : v == 3 ? "0" : v == 4 ? "''" : v == 5 ? "F" : node;
        if (v >= 3) st.back().kids += " " + r.value;
    }
    r.complete = st.size() == 1;
    return r;
}
static void marks_of(const gr::Tree& k, std::vector<uint64_t>& m)
{
    m.push_back(mi::mark(true, k.rule + 1, k.start));
    for (auto& x : k.kids) marks_of(x, m);
    m.push_back(mi::mark(false, k.rule + 1, k.end));
}
struct Want { bool any = false, refused = false; std::string value; };
static std::vector<std::string> lines(const std::string& s)
{
    std::vector<std::string> v;
    std::istringstream is(s);
    for (std::string l; std::getline(is, l); ) v.push_back(l);
    return v;
}
static void judge(pbt::Case& c, const std::string& script, const std::vector<Want>& want, std::vector<std::string> calls, bool log, double limit)
{
    std::string d = ld::dir();
    gr::write_file(d + "/script", script);
    unlink((d + "/result").c_str());
    unlink((d + "/log").c_str());
    int status = 0;
    bool done = session(d + "/script", d + "/result", limit, status);
    auto got = lines(slurp(d + "/result"));
    std::string err = slurp(d + "/result.err");
    if (err.size() > 1500) err = err.substr(err.size() - 1500);
    auto bad = [&](const std::string& s) { c.fail(s + (err.empty() ? "" : "\nstandard error: " + err)); };
    size_t n = 0;
    for (auto& l : got)
    {
        if (l.compare(0, 4, "left") == 0) bad("the contexts are stopped, and there are " + l);
        if (l.compare(0, 9, "exception") == 0)
        {
            if (n >= want.size() || !want[n].refused) bad("a command of the session raises an " + l);
            n++;
        }
        if (l.compare(0, 6, "value ") == 0)
        {
            if (n >= want.size()) bad("too many results");
            if (want[n].refused) bad("a missing input gives a result");
            if (!want[n].any && l.substr(6) != want[n].value)
            {
                size_t p = 0;
                std::string a = l.substr(6), b = want[n].value;
                while (p < a.size() && p < b.size() && a[p] == b[p]) p++;
                size_t q = p > 60 ? p - 60 : 0;
                bad("parse number " + std::to_string(n + 1) + " returns a value that at " + std::to_string(p) + " of " + std::to_string(a.size()) + " reads ..." + a.substr(q, 160) + "\nexpected (" + std::to_string(b.size()) + ") ..." + b.substr(q, 160));
            }
            n++;
        }
    }
    if (!done) bad("parse number " + std::to_string(n + 1) + " or the end of the session does not come");
    if (status) bad("the session ends with status " + std::to_string(status) + " after " + std::to_string(n) + " results");
    if (got.empty() || got.back() != "end") bad("the session ends early");
    if (n != want.size()) bad("results are missing");
    if (!kept.empty()) bad("the session leaves " + kept + " behind");
    if (log)
    {
        auto made = lines(slurp(d + "/log"));
        std::sort(made.begin(), made.end());
        std::sort(calls.begin(), calls.end());
        for (size_t i = 0; i < std::max(made.size(), calls.size()); i++)
        {
            if (i < made.size() && i < calls.size() && made[i] == calls[i]) continue;
            if (i < calls.size() && (i >= made.size() || calls[i] < made[i])) bad("no call of a handler " + calls[i].substr(0, 300));
            bad("a call of a handler that is not part of the reduction, or is made twice: " + made[i].substr(0, 300));
        }
    }
}
struct Ctx { std::string key; gr::Gram gm; std::vector<std::string> handler; uint32_t seed; int workers; };
static void sessions(pbt::Case& c)
{
    pbt::Gen& g = c.g;
    std::string d = ld::dir(), script;
    mkdir(d.c_str(), 0700);
    std::vector<Ctx> cs;
    int nc = g.chance(20) ? 2 : 1;
    std::vector<std::string> calls;
    std::vector<Want> want;
    size_t most = 0;
    int parses = 0;
    auto attach = [&](Ctx& x) {
        std::string names;
        bool dflt = g.chance(30);
        x.seed = g.below(1u << 30);
        x.handler.assign(1, "");
        for (size_t r = 0; r < x.gm.rules.size(); r++)
        {
            bool own = !dflt || g.chance(60);
            if (own) names += (names.empty() ? "" : ",") + x.gm.rules[r].name;
            x.handler.push_back(own ? x.gm.rules[r].name : "*");
        }
        script += "attach\t" + x.key + "\t" + std::to_string(x.seed) + "\t" + d + "/log\t" + names + "\t" + (dflt ? "1" : "0") + "\n";
    };
    for (int i = 0; i < nc; i++)
    {
        Ctx x;
        x.key = std::to_string(i);
        bool open;
        if (!dv::make(g, x.gm, false, true, &open)) c.discard("too large");
        if (open) c.label("open end");
        c.show(gr::print(x.gm));
        gr::Sampler probe(g, x.gm);
        if (!probe.productive(0)) c.discard("derives nothing");
        if (g.chance(15))
        {
            // A grammar nothing can be made of is refused, and no harm is done.
            std::string bp = d + "/bad.cgr", bad;
            unlink(bp.c_str());
            switch (g.range(0, 3))
            {
            case 0: bad = "no file"; break;
            case 1: bad = "grammar G;\nS : 'a' "; break;
            case 2: bad = "grammar G;\nS : S 'a' | 'b' ;\n"; break;
            case 3: bad = "grammar G;\nS : 'a' | T ;\n"; break;
            }
            if (bad != "no file") gr::write_file(bp, bad);
            c.show("  context of " + pbt::quote(bad) + "\n");
            script += "context\tbad\t" + bp + "\n";
            Want w;
            w.refused = true;
            want.push_back(w);
            c.label("refused grammar");
        }
        std::string gp = ld::file(gr::print(x.gm), "g" + x.key + ".cgr");
        script += "context\t" + x.key + "\t" + gp + "\n";
        cs.push_back(x);
    }
    int turns = g.range(1, 2);
    bool restart = false;
    for (int t = 0; t < turns; t++)
    {
        // Contexts are started, used in turns, stopped.
        for (auto& x : cs)
        {
            attach(x);
            x.workers = (g.chance(2) ? g.range(5, 10) : g.weighted({0, 4, 3, 2, 1}));
            script += "start\t" + x.key + "\t" + std::to_string(x.workers) + "\n";
            c.show("  start " + x.key + " with " + std::to_string(x.workers) + " workers\n");
        }
        int n = g.range(1, 4);
        for (int i = 0; i < n; i++)
        {
            Ctx& x = cs[g.below((uint32_t)cs.size())];
            if (g.chance(10))
            {
                c.show("  parse " + x.key + " of a missing file\n");
                script += "parse\t" + x.key + "\t" + d + "/missing\n";
                Want w;
                w.refused = true;
                want.push_back(w);
                c.label("missing input");
            }
            gr::Sampler sm(g, x.gm);
            sm.prefer = "0123456789";
            sm.limit = g.chance(20) ? 600 : 60;
            gr::Tree k = sm.rule(0, 8);
            for (int again = 0; again < 4 && k.kids.size() < 2; again++) { sm.out.clear(); k = sm.rule(0, 8); }
            std::string s = sm.out, path = d + "/in" + std::to_string(parses++);
            std::vector<uint64_t> marks;
            Want w;
            if (g.chance(80))
            {
                marks_of(k, marks);
                most = std::max(most, marks.size() / 2);
            }
            else
            {
                s = rx::mutate(g, s, "bcd01 ");
                for (auto& ch : s) ch &= 0x7f;
                ld::load(*std::make_unique<Grammar<char>>(), gr::print(x.gm));
                Grammar<char> G;
                G.parse(d + "/g.cgr");
                am::Branches<char> ref(G);
                mi::Machine<char> m(G, &ref);
                m.reset(s);
                try { if (m.run(am::ident(x.gm.rules[0].name), 0) < 0) { c.label("rejected"); w.any = true; } }
                catch (const am::Overflow&) { c.discard("too deep"); }
                catch (const mi::TooLong&) { c.discard("endless"); }
                marks = m.marks;
            }
            c.show("  parse " + x.key + " " + pbt::quote(s) + "\n");
            gr::write_file(path, s);
            Serial r = serial(s, marks, x.handler, x.seed, true);
            w.value = r.value;
            calls.insert(calls.end(), r.calls.begin(), r.calls.end());
            want.push_back(w);
            script += "parse\t" + x.key + "\t" + path + "\n";
        }
        for (auto& x : cs) script += "stop\t" + x.key + "\n";
        if (t) restart = true;
    }
    if (restart) c.label("restarted");
    if (nc > 1) c.label("two contexts");
    if (parses > 1) c.label("several inputs");
    judge(c, script, want, calls, true, 40);
    c.nontrivial = most > 2;
}
// Trees of more than one bank: values cross from the parallel workers to the last one.
static void large(pbt::Case& c)
{
    pbt::Gen& g = c.g;
    gr::Gram gm;
    std::string d = ld::dir();
    std::string gp = ld::file("grammar G;\nS : '(' ( T | U )* ')' ;\nT : 'a' ;\nU : 'b' ( V | U )* 'd' ;\nV : 'c' ;\n");
    std::vector<std::string> handler = {"", "S", "T", "U", "V"};
    uint32_t seed = g.below(1u << 30), x = g.below(1u << 30);
    size_t total = (1 << 20) * (size_t)g.weighted({0, 3, 1}) + g.range(-40, 40);
    int every = g.range(500, 3000);
    // Sometimes nothing of value comes before the end of the first bank, or a little before it.
    size_t from = 0;
    if (g.chance(50))
    {
        from = (1 << 20) + g.range(-60, 20);
        total = std::max(total, from) + g.range(20, 2000);
        every = g.range(2, 6);
    }
    c.show("about " + std::to_string(total) + " markers, seed " + std::to_string(x) + ", every " + std::to_string(every) + " from " + std::to_string(from) + "\n");
    std::string s = "(";
    std::vector<uint64_t> marks = {mi::mark(true, 1, 0)};
    auto rnd = [&]() { x = x * 1103515245 + 12345; return x >> 16 & 0x7fff; };
    auto leaf = [&](int id, char ch) { size_t p = s.size(); s += ch; marks.push_back(mi::mark(true, id, p)); marks.push_back(mi::mark(false, id, p + 1)); };
    std::function<void(int)> u = [&](int depth) {
        marks.push_back(mi::mark(true, 3, s.size()));
        s += 'b';
        int n = rnd() % 4;
        for (int i = 0; i < n; i++) if (depth && rnd() % 3 == 0) u(depth - 1); else leaf(4, 'c');
        s += 'd';
        marks.push_back(mi::mark(false, 3, s.size()));
    };
    while (marks.size() < total)
    {
        bool near = (marks.size() + 100) % (1 << 20) < 200;
        if (marks.size() < from || (near ? rnd() & 1 : marks.size() / 2 % every)) leaf(2, 'a');
        else u(5);
    }
    s += ")";
    marks.push_back(mi::mark(false, 1, s.size()));
    int workers = g.range(1, 3), n = g.range(1, 2);
    // Most of the bulk returns nothing, the root something.
    while (gives(seed, "T", "a") >= 3 || gives(seed, "S", s) < 6) seed = (seed + 1) & 0x3fffffff;
    gr::write_file(d + "/in", s);
    Serial r = serial(s, marks, handler, seed, false);
    std::string script = "context\t0\t" + gp + "\nattach\t0\t" + std::to_string(seed) + "\t\tS,T,U,V\t0\nstart\t0\t" + std::to_string(workers) + "\n";
    std::vector<Want> want;
    for (int i = 0; i < n; i++) { script += "parse\t0\t" + d + "/in\n"; Want w; w.value = r.value; want.push_back(w); }
    script += "stop\t0\n";
    c.show(std::to_string(workers) + " workers, " + std::to_string(n) + " times, " + std::to_string(marks.size()) + " markers, values " + std::to_string(seed) + "\n");
    judge(c, script, want, {}, false, 120);
    c.nontrivial = r.value.size() > (from ? 10 : 1000);
}
// Texts in UTF-8: what a handler reads is what the text says, and positions are those of bytes.
static std::string letter(pbt::Gen& g)
{
    uint32_t u;
    switch (g.weighted({3, 2, 3, 2, 2, 1}))
    {
    case 0: u = g.range('a', 'z'); break;
    case 1: u = g.range(0xc0, 0x17f); break;                    // two bytes
    case 2: u = g.chance(50) ? g.range(0x3040, 0x30ff) : g.range(0x4e00, 0x9fff); break;
    case 3: u = g.range(0x1f300, 0x1f64f); break;               // four
    case 4: u = g.pick(std::vector<uint32_t>{0x80, 0x85, 0xa0, 0xff, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x10ffff, 0x2028, 0x0a, 0x0d, 0x09, 0x01, 0x7f, 0x20}); break;
    default: u = 0x300 + g.below(0x70); break;                  // combining
    }
    std::string s;
    if (u < 0x80) s += (char)u;
    else if (u < 0x800) { s += (char)(0xc0 | u >> 6); s += (char)(0x80 | (u & 63)); }
    else if (u < 0x10000) { s += (char)(0xe0 | u >> 12); s += (char)(0x80 | (u >> 6 & 63)); s += (char)(0x80 | (u & 63)); }
    else { s += (char)(0xf0 | u >> 18); s += (char)(0x80 | (u >> 12 & 63)); s += (char)(0x80 | (u >> 6 & 63)); s += (char)(0x80 | (u & 63)); }
    return s;
}
static void texts(pbt::Case& c)
{
    pbt::Gen& g = c.g;
    std::string d = ld::dir();
    mkdir(d.c_str(), 0700);
    std::string name = g.chance(40) ? letter(g) + "g.cgr" : "g.cgr";
    for (auto& ch : name) if (ch == '\t' || ch == '\n' || ch == '\r') ch = '_';
    std::string grammar = g.chance(50) ? "grammar G;\nS : '<' ( T | U )* '>' ;\nT : /\"[^\"]*\"/ ;\nU : 'u' V 'w' ;\nV : /\\([^)]+\\)/ ;\n"
                                       : "grammar G;\nS : '<' ( T | U )* '>' ;\nT : /\"[^\"]*/ '\"' ;\nU : 'u' V 'w' ;\nV : /\\([^)]+\\)/ ;\n";
    gr::write_file(d + "/" + name, grammar);
    std::vector<std::string> handler = {"", "S", "T", "U", "V"};
    std::string s = "<", script = "context\t0\t" + d + "/" + name + "\n";
    std::vector<uint64_t> marks = {mi::mark(true, 1, 0)};
    bool wide = false;
    auto some = [&](char stop, int least) {
        for (int i = g.range(least, 6); i > 0; i--) { std::string l = letter(g); if (l[0] != stop) { s += l; wide |= (unsigned char)l[0] > 127; } else s += "x"; }
    };
    for (int n = g.range(1, 6); n > 0; n--)
    {
        if (g.chance(60)) { marks.push_back(mi::mark(true, 2, s.size())); s += '"'; some('"', 0); s += '"'; marks.push_back(mi::mark(false, 2, s.size())); continue; }
        marks.push_back(mi::mark(true, 3, s.size()));
        s += 'u';
        marks.push_back(mi::mark(true, 4, s.size())); s += '('; some(')', 1); s += ')'; marks.push_back(mi::mark(false, 4, s.size()));
        s += 'w';
        marks.push_back(mi::mark(false, 3, s.size()));
    }
    s += '>';
    marks.push_back(mi::mark(false, 1, s.size()));
    uint32_t seed = g.below(1u << 30);
    while (gives(seed, "S", s) < 6) seed = (seed + 1) & 0x3fffffff;
    int workers = g.range(1, 2);
    std::string in = d + "/" + (g.chance(40) ? "\xe5\x85\xa5" : "") + "in";
    c.show(grammar + pbt::quote(s) + " in " + pbt::quote(in) + " grammar in " + pbt::quote(name) + " " + std::to_string(workers) + " workers\n");
    gr::write_file(in, s);
    Serial r = serial(s, marks, handler, seed, true);
    script += "attach\t0\t" + std::to_string(seed) + "\t" + d + "/log\tS,T,U,V\t0\nstart\t0\t" + std::to_string(workers) + "\nparse\t0\t" + in + "\nstop\t0\n";
    Want w;
    w.value = r.value;
    judge(c, script, {w}, r.calls, true, 40);
    c.nontrivial = wide;
}
// The thin classes under the binding.
static void classes(pbt::Case& c)
{
    pbt::Gen& g = c.g;
    gr::Gram gm;
    if (!dv::make(g, gm, g.chance(50), true)) c.discard("too large");
    c.show(gr::print(gm));
    std::string d = ld::dir(), gp = ld::file(gr::print(gm)), want = "grammar ";
    for (size_t i = 0; i < gm.rules.size(); i++) want += (i ? "," : "") + std::to_string(i + 1) + ":" + gm.rules[i].name + ":" + std::to_string(i + 1);
    std::string how = g.pick(std::vector<std::string>{"", "opt", "dry"});
    gr::write_file(d + "/script", "grammar\t" + gp + "\t" + how + "\t" + d + "/dot\n");
    unlink((d + "/result").c_str());
    unlink((d + "/dot").c_str());
    int status = 0;
    if (!session(d + "/script", d + "/result", 40, status)) c.fail("the session does not end");
    if (status) c.fail("the session ends with status " + std::to_string(status));
    auto got = lines(slurp(d + "/result"));
    if (got != std::vector<std::string>({want, "ok", "end"})) c.fail("got " + (got.empty() ? "nothing" : got[0] + (got.size() > 1 ? " / " + got[1] : "")) + ", expected " + want);
    Grammar<unsigned char> G;
    G.parse(gp);
    G.optimize();   // loading through the binding does
    if (how != "") G.optimize();
    std::wostringstream o;
    static_cast<IGrammar&>(G).print_grammar(o, 4);
    if (slurp(d + "/dot") != ld::narrow(o.str())) c.fail("the printed grammar differs");
    c.nontrivial = gm.rules.size() > 1;
}
static int reg = (
    pbt::add("sessions", 500, 8000, sessions, {true, 60, 60, true, 8}),
    pbt::add("large", 6, 80, large, {true, 300, 200, true, 3}),
    pbt::add("texts", 120, 2000, texts, {true, 60, 60, true, 8}),
    pbt::add("classes", 60, 1000, classes, {true, 60, 60, true, 8}), 0);
PBT_MAIN
