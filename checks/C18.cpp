// The C++ interface from end to end: a grammar file, callbacks, input files, worker threads.
#include "load.hpp"
#include "machine.hpp"
#include "derived.hpp"
#include "pipeline.hpp"
#include "Context.hpp"
#include <mutex>
#include <signal.h>
using namespace Centaurus;

struct Call
{
    int id;
    std::string text;
    long start, end;
    std::vector<int> args;                  // calls whose values were given, by their number
    bool gives;                             // returned a value
    bool odd = false;                       // the context contradicts itself
};
static std::mutex lock;
static std::vector<Call> calls;
static const char *root_start;
static uint64_t nulls;                      // seed of which calls return nothing
static bool gives(int id, long start, long end)
{
    uint64_t h = nulls + (uint64_t)id * 0x9e3779b97f4a7c15ull + (uint64_t)start * 0xc2b2ae3d27d4eb4full + (uint64_t)end * 0x165667b19e3779f9ull;
    h ^= h >> 29;
    h *= 0xbf58476d1ce4e5b9ull;
    return (h >> 40) % 5 != 0;
}
static std::vector<const char *> bases;
struct Value { int call; };
static std::vector<std::unique_ptr<Value>> values;
static const char *base_of_input = nullptr; // set per case: start of the root, known after the run
template<int K> static void *on(const SymbolContext<char>& ctx)
{
    Call k;
    k.id = K;
    k.text = ctx.read();
    k.odd = ctx.end() - ctx.start() != ctx.len() || (size_t)ctx.len() != k.text.size() || k.text.compare(0, std::string::npos, ctx.start(), ctx.len()) != 0;
    k.start = (long)ctx.start();
    k.end = (long)ctx.end();
    for (int i = 1; i <= ctx.count(); i++) { Value *v = ctx.value<Value>(i); k.args.push_back(v ? v->call : -1); }
    std::lock_guard<std::mutex> g(lock);
    Value *v = new Value{(int)calls.size()};
    calls.push_back(k);
    values.emplace_back(v);
    // The offset is not part of the context: identify the call by its text.
    calls.back().gives = gives(K, (long)k.text.size(), 0);
    return calls.back().gives ? v : nullptr;
}
static CppReductionCallback<char> cbs[] = {nullptr, on<1>, on<2>, on<3>, on<4>, on<5>, on<6>};

struct Node { int id; size_t start, end; std::vector<int> args; bool attached, gives; };
// The calls a serial reduction of the markers makes, in order; unfinished nodes make none.
static std::vector<Node> serial(const std::vector<uint64_t>& marks, const std::vector<int>& attached)
{
    struct Open { int id; size_t start; std::vector<int> vals; };
    std::vector<Open> st(1);
    std::vector<Node> out;
    for (uint64_t m : marks)
    {
        int id = (int)(m >> 48 & 0x7fff);
        size_t pos = m & 0xffffffffffffull;
        if (m >> 63) { st.push_back(Open{id, pos, {}}); continue; }
        Open o = st.back();
        st.pop_back();
        if (!attached[id]) continue;
        id = attached[id];
        bool v = gives(id, (long)(pos - o.start), 0);
        out.push_back(Node{id, o.start, pos, o.vals, true, v});
        if (v) st.back().vals.push_back((int)out.size() - 1);
    }
    return out;
}
static void compare(pbt::Case& c, const std::string& input, const std::vector<Node>& want)
{
    std::lock_guard<std::mutex> g(lock);
    if (calls.size() != want.size()) c.fail(std::to_string(calls.size()) + " callbacks were made, " + std::to_string(want.size()) + " expected");
    if (calls.empty()) return;
    for (auto& k : calls) if (k.odd) c.fail("start, end, len and read of a context do not agree");
    // All calls' positions are relative to the one mapping.
    long base = calls[0].start;
    for (auto& k : calls) base = std::min(base, k.start);
    size_t least = want[0].start;
    for (auto& w : want) least = std::min(least, w.start);
    base -= (long)least;
    // Nodes are matched by their place in the tree: the same span, rule and arguments, the arguments' calls matched first.
    std::map<std::tuple<int, size_t, size_t>, std::vector<int>> idx;
    for (size_t i = 0; i < want.size(); i++) idx[std::make_tuple(want[i].id, want[i].start, want[i].end)].push_back((int)i);
    std::vector<int> to(calls.size(), -1);
    for (size_t i = 0; i < calls.size(); i++)
    {
        auto& k = calls[i];
        std::vector<int> args;
        for (int a : k.args)
        {
            if (a < 0) c.fail("a callback is given a value that is none");
            if (a >= (int)i) c.fail("a callback is made before one of its parts");
            args.push_back(to[a]);
        }
        auto it = idx.find(std::make_tuple(k.id, (size_t)(k.start - base), (size_t)(k.end - base)));
        std::string what = "the callback of rule " + std::to_string(k.id) + " for " + std::to_string(k.start - base) + "-" + std::to_string(k.end - base);
        if (it == idx.end()) c.fail(what + " is not part of the reduction");
        bool found = false;
        for (auto& w : it->second) if (w >= 0 && want[w].args == args) { to[i] = w; w = -1; found = true; break; }
        if (!found) c.fail(what + " gets other values than its parts', or is made twice");
        if (k.text != input.substr(k.start - base, k.end - k.start)) c.fail(what + " reads other text than the input's");
    }
}
static void put(const std::string& path, const std::string& s) { gr::write_file(path, s); }
// What a parse leaves behind in the process.
static void behind(pbt::Case& c, const std::string& path, int fds, int threads)
{
    if (!pl::leftovers().empty()) c.fail("a parse leaves " + pl::leftovers()[0] + " behind");
    if (pl::open_fds() != fds) c.fail("a parse leaves " + std::to_string(pl::open_fds() - fds) + " files open");
    std::ifstream f("/proc/self/maps");
    char abs[4096];
    std::string l, in = realpath(path.c_str(), abs) ? abs : path;
    while (std::getline(f, l))
        if (l.find("/dev/shm/") != std::string::npos || l.find(in) != std::string::npos) c.fail("a parse leaves a mapping behind: " + l);
    // A joined thread takes a moment to leave the list of threads.
    for (int i = 0; i < 200 && pl::threads() > threads; i++) usleep(1000);
    if (pl::threads() > threads) c.fail("a parse leaves a thread behind");
}
static void run(pbt::Case& c, Context<char>& ctx, const std::string& path, int workers, const std::string& input, const std::vector<uint64_t>& marks, const std::vector<int>& attached)
{
    put(path, input);
    calls.clear();
    values.clear();
    int fds = pl::open_fds(), threads = pl::threads();
    ctx.parse(path.c_str(), workers);
    behind(c, path, fds, threads);
    compare(c, input, serial(marks, attached));
}
static void marks_of(const gr::Tree& k, std::vector<uint64_t>& m)
{
    m.push_back(mi::mark(true, k.rule + 1, k.start));
    for (auto& x : k.kids) marks_of(x, m);
    m.push_back(mi::mark(false, k.rule + 1, k.end));
}
// One context of a session: which callback each rule has (0: none).
struct One
{
    gr::Gram gm;
    std::string path;
    std::unique_ptr<Context<char>> ctx;
    std::vector<int> attached;
    std::unique_ptr<Grammar<char>> G;
    std::unique_ptr<am::Branches<char>> ref;
    std::unique_ptr<mi::Machine<char>> m;
    void attach(int r, int k) { ctx->attach(am::ident(gm.rules[r].name), cbs[k]); attached[r + 1] = k; }
};
static void sessions(pbt::Case& c)
{
    pbt::Gen& g = c.g;
    std::vector<One> all(1);
    auto load = [&](One& o) {
        c.show(gr::print(o.gm));
        o.path = ld::file(gr::print(o.gm), &o == &all[0] ? "g.cgr" : "h.cgr");
        o.ctx.reset(new Context<char>(o.path.c_str()));
        o.G.reset(new Grammar<char>());
        o.G->parse(o.path);
        o.ref.reset(new am::Branches<char>(*o.G));
        o.m.reset(new mi::Machine<char>(*o.G, o.ref.get()));
        o.attached.assign(o.gm.rules.size() + 1, 0);
        for (size_t r = 0; r < o.gm.rules.size(); r++)
            if (g.chance(80)) o.attach((int)r, (int)r + 1);
    };
    auto make = [&](One& o) {
        bool open;
        if (!dv::make(g, o.gm, false, true, &open)) c.discard("too large");
        gr::Sampler probe(g, o.gm);
        if (!probe.productive(0)) c.discard("derives nothing");
        if (open) c.label("open end");
    };
    make(all[0]);
    load(all[0]);
    nulls = g.chance(30) ? 0 : g.below(1u << 30);
    int n = g.range(1, 3);
    size_t most = 0;
    if (g.chance(20))
    {
        // A second context, of the same grammar or another.
        all.emplace_back();
        if (g.chance(50)) all[1].gm = all[0].gm;
        else make(all[1]);
        load(all[1]);
        n++;
        c.label("two contexts");
    }
    for (int i = 0; i < n; i++)
    {
        One& o = all[all.size() > 1 && g.chance(60) ? (i + 1) % 2 : 0];
        const gr::Gram& gm = o.gm;
        Context<char>& ctx = *o.ctx;
        if (all.size() > 1) c.show(&o == &all[0] ? "  first:" : "  second:");
        int workers = (g.chance(2) ? g.range(5, 10) : g.weighted({0, 4, 3, 2, 1}));
        std::string path = ld::dir() + "/in" + std::to_string(g.below(2));
        gr::Sampler sm(g, gm);
        sm.prefer = "0123456789";
        sm.limit = g.chance(20) ? 600 : 60;
        gr::Tree t = sm.rule(0, 8);
        for (int again = 0; again < 4 && t.kids.size() < 2; again++) { sm.out.clear(); t = sm.rule(0, 8); }
        std::vector<uint64_t> marks;
        int kind = g.weighted({8, 2, 1});
        if (kind == 0)
        {
            marks_of(t, marks);
            c.show("  " + std::to_string(workers) + " workers, input " + pbt::quote(sm.out) + "\n");
            run(c, ctx, path, workers, sm.out, marks, o.attached);
            most = std::max(most, marks.size() / 2);
        }
        else if (kind == 1)
        {
            // Rejected, perhaps: the parts that were completed are reduced all the same.
            std::string s = rx::mutate(g, sm.out, "bcd01 ");
            o.m->reset(s);
            try { if (o.m->run(am::ident(gm.rules[0].name), 0) < 0) c.label("rejected"); }
            catch (const am::Overflow&) { c.discard("too deep"); }
            catch (const mi::TooLong&) { c.discard("endless"); }
            c.show("  " + std::to_string(workers) + " workers, damaged input " + pbt::quote(s) + "\n");
            run(c, ctx, path, workers, s, o.m->marks, o.attached);
        }
        else
        {
            c.show("  missing input\n");
            bool threw = false;
            try { ctx.parse((ld::dir() + "/none").c_str(), workers); } catch (const std::exception&) { threw = true; }
            if (!threw) c.fail("a missing input is not reported");
        }
        if (g.chance(20))
        {
            // Attached late, or another in its place.
            int r = (int)g.below((uint32_t)gm.rules.size()), k = g.chance(70) ? r + 1 : g.range(1, 6);
            o.attach(r, k);
        }
        if (g.chance(4))
        {
            bool threw = false;
            try { ctx.attach(L"Unknown", cbs[1]); } catch (const std::exception&) { threw = true; }
            if (!threw) c.fail("a callback for a rule that is not there is taken");
            c.label("unknown rule");
        }
        if (all.size() > 1 && g.chance(15)) { all.pop_back(); c.show("  the second is gone\n"); }
    }
    if (n > 1) c.label("several inputs");
    c.nontrivial = most > 2;
}
// Trees of more than one bank.
static void large(pbt::Case& c)
{
    pbt::Gen& g = c.g;
    std::string text = "grammar G;\nS : '(' ( T | U )* ')' ;\nT : 'a' ;\nU : 'b' V ;\nV : '(' V ')' | 'c' ;\n";
    ld::file(text);
    Context<char> ctx((ld::dir() + "/g.cgr").c_str());
    std::vector<int> attached = {0, 1, 2, 3, 4};
    const char *names[] = {"S", "T", "U", "V"};
    // Many banks, many values of one node, many levels. The bulk is reduced unseen, to keep the record small.
    int kind = g.weighted({4, 1, 1});
    if (kind != 1) attached[2] = 0;
    if (kind == 2) attached[4] = 0;
    for (int i = 0; i < 4; i++) if (attached[i + 1]) ctx.attach(am::ident(names[i]), cbs[i + 1]);
    nulls = g.below(1u << 30);
    size_t total = kind == 0 ? (1 << 20) * g.range(1, 2) + g.range(-40, 40) : kind == 1 ? g.range(150000, 300000) : g.range(2500000, 4000000);
    std::string s = "(";
    std::vector<uint64_t> marks = {mi::mark(true, 1, 0)};
    int seed = g.below(1 << 30), every = g.range(200, 2000);
    uint32_t x = seed;
    while (marks.size() < total)
    {
        size_t p = s.size();
        x = x * 1103515245 + 12345;
        bool near = (marks.size() + 100) % (1 << 20) < 200;
        if (near ? (x >> 16 & 1) : marks.size() / 2 % every) { s += "a"; marks.push_back(mi::mark(true, 2, p)); marks.push_back(mi::mark(false, 2, p + 1)); continue; }
        int d = kind == 2 ? (int)(total - marks.size()) / 2 : (int)(x >> 18 & 15);
        s += "b";
        marks.push_back(mi::mark(true, 3, p));
        for (int i = 0; i <= d; i++) { marks.push_back(mi::mark(true, 4, p + 1 + i)); if (i < d) s += "("; }
        s += "c";
        for (int i = d; i >= 0; i--) { if (i < d) s += ")"; marks.push_back(mi::mark(false, 4, s.size())); }
        marks.push_back(mi::mark(false, 3, s.size()));
    }
    s += ")";
    marks.push_back(mi::mark(false, 1, s.size()));
    int workers = g.range(1, 4);
    static const char *name[] = {"many banks", "many values of one node", "many levels"};
    c.label(name[kind]);
    c.show(std::string(name[kind]) + ", " + std::to_string(marks.size()) + " markers, seed " + std::to_string(seed) + " every " + std::to_string(every) + ", " + std::to_string(workers) + " workers\n");
    run(c, ctx, ld::dir() + "/in", workers, s, marks, attached);
    c.nontrivial = marks.size() > 140000;
}
static int reg = (
    pbt::add("sessions", 3000, 40000, sessions, {true, 60, 60, true, 4}),
    pbt::add("large", 60, 800, large, {true, 120, 120, true, 3}), 0);
PBT_MAIN
