// The pipeline as the Python binding drives it: values travel beside the banks, workers may be processes.
#define PYCENTAURUS 1
#include "pipeline.hpp"
#include <algorithm>
#include <deque>
#include <optional>
#include <sys/mman.h>
#include <sys/wait.h>
using namespace Centaurus;

// What all processes share.
struct Shared
{
    struct Channel { std::atomic<int> full; size_t n; uint64_t *v; };
    std::atomic<size_t> calls, words, trouble;
    size_t room;
    char what[200];
    uint64_t *log;                                   // calls: id, start, end, n, args
    Channel ch[32];
    uint64_t *arena;
    size_t arena_size;
    std::atomic<uint64_t> result, given, numbers, squares;  // what the parallel workers are told
    std::atomic<int> has_result, done;
    void complain(const char *t) { if (!trouble.exchange(1)) snprintf(what, sizeof what, "%s", t); }
};
struct Block
{
    Shared *s;
    size_t size;
    Block(size_t words)
    {
        size = sizeof(Shared) + words * 8 * 16;
        s = (Shared *)mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (s == MAP_FAILED) abort();
        s->room = words * 6;
        s->log = (uint64_t *)(s + 1);
        s->arena = s->log + s->room;
        s->arena_size = words * 10;
        for (int i = 0; i < 32; i++) s->ch[i].v = s->arena + s->arena_size / 32 * i;
    }
    ~Block() { munmap(s, size); }
};
// The listener adapters of the Python package.
struct Adapter
{
    Shared *sh;
    const pl::Scenario *s;
    std::optional<std::vector<uint64_t>> values;
    Adapter(Shared *sh, const pl::Scenario *s) : sh(sh), s(s) {}
    virtual ~Adapter() {}
    long invoke(const SymbolEntry& sym, int argc)
    {
        if (!values || (int)values->size() < argc) { sh->complain("more values are reduced than there are"); return 0; }
        pl::Call c{(int)sym.id, sym.start, sym.end, std::vector<uint64_t>(values->end() - argc, values->end())};
        values->resize(values->size() - argc);
        pl::nap(*s, sym.start + 13);
        size_t at = sh->words.fetch_add(4 + argc);
        if (at + 4 + argc > sh->room) { sh->complain("more reductions than nodes"); return 0; }
        uint64_t *p = sh->log + at;
        p[0] = c.id, p[1] = c.start, p[2] = c.end, p[3] = argc;
        for (int i = 0; i < argc; i++) p[4 + i] = c.args[i];
        sh->calls++;
        uint64_t v = pl::value(*s, c);
        if (!v) return 0;
        values->push_back(v);
        return 1;
    }
    virtual long reduce(const SymbolEntry& sym, uint64_t *v, int n) = 0;
    virtual void transfer(int index, int fresh) = 0;
};
struct Second : Adapter
{
    int number = -1;
    using Adapter::Adapter;
    long reduce(const SymbolEntry& sym, uint64_t *, int n) override { return invoke(sym, n); }
    void transfer(int index, int fresh) override
    {
        if (!values) { values.emplace(); number = fresh; if (fresh < 0) sh->complain("a bank without a number"); sh->given++; sh->numbers += fresh; sh->squares += (uint64_t)fresh * fresh; return; }
        if (index < 0 || index >= 32) { sh->complain("values for no bank"); return; }
        auto& c = sh->ch[index];
        while (c.full.load()) sched_yield();
        if (values->size() > sh->arena_size / 32) { sh->complain("too many values"); return; }
        c.n = values->size();
        std::copy(values->begin(), values->end(), c.v);
        c.full.store(1);
        values.reset();
    }
};
struct Third : Adapter
{
    std::deque<std::deque<uint64_t>> later;
    int next = 0;
    using Adapter::Adapter;
    void shift(uint64_t count)
    {
        while (count)
        {
            if (later.empty()) { sh->complain("more values are due than were handed over"); return; }
            while (count && !later[0].empty()) { values->push_back(later[0].front()); later[0].pop_front(); count--; }
            if (count) later.pop_front();
        }
    }
    long reduce(const SymbolEntry& sym, uint64_t *v, int n) override { shift(v[0]); return invoke(sym, n); }
    void transfer(int index, int number) override
    {
        if (number != next++) sh->complain("banks out of order");
        auto& c = sh->ch[index];
        while (!c.full.load()) sched_yield();
        std::vector<uint64_t> got(c.v, c.v + c.n);
        c.full.store(0);
        if (!values) values = got;
        else later.emplace_back(got.begin(), got.end());
    }
};
// The binding's callbacks have no context of their own: one closure per runner.
static Adapter *closure[32];
template <int K> static long on_reduce(const SymbolEntry *sym, uint64_t *v, int n, void *) { return closure[K]->reduce(*sym, v, n); }
template <int K> static void on_transfer(int a, int b, void *) { closure[K]->transfer(a, b); }
static ReductionListener reducers[] = {on_reduce<0>, on_reduce<1>, on_reduce<2>, on_reduce<3>, on_reduce<4>, on_reduce<5>, on_reduce<6>, on_reduce<7>, on_reduce<8>, on_reduce<9>, on_reduce<10>, on_reduce<11>, on_reduce<12>};
static TransferListener transfers[] = {on_transfer<0>, on_transfer<1>, on_transfer<2>, on_transfer<3>, on_transfer<4>, on_transfer<5>, on_transfer<6>, on_transfer<7>, on_transfer<8>, on_transfer<9>, on_transfer<10>, on_transfer<11>, on_transfer<12>};

static void finish(Shared *sh, Third& a, bool whole)
{
    if (whole && a.values && a.values->size() > 1) sh->complain("more than one value is left");
    if (a.values && a.values->size() == 1) { sh->result = (*a.values)[0]; sh->has_result = 1; }
}
static void python(pbt::Case& c, int limit, bool processes)
{
    pl::Tree t = limit ? pl::tree(c.g, limit) : pl::huge(c.g);
    pl::Scenario s = limit ? pl::scenario(c.g) : pl::huge_scenario(c.g);
    if (s.banks > 32) s.banks = 32;
    bool whole = !pl::cut(c.g, t);
    c.show(pl::show(s) + pl::show(t) + (whole ? "\n" : " up to marker " + std::to_string(t.marks.size()) + "\n"));
    if (!whole) c.label("cut short");
    pl::leftovers(true);
    std::vector<pl::Call> want, got;
    uint64_t answer = 0;
    if (whole) answer = pl::serial(t, s, want); else pl::serial_cut(t, s, want);
    std::string in = pl::input("some text");
    Block block(t.n.size() * 16 + 64);
    Shared *sh = block.s;
    size_t bytes = s.per_bank * 8;
    pl::FakeParser parser(t.marks, s);
    {
        std::unique_ptr<Stage1Runner> s1(new Stage1Runner(in.c_str(), &parser, bytes, s.banks));
        int master = getpid();
        auto worker = [&](int i, bool child) -> std::unique_ptr<BaseRunner> {
            std::unique_ptr<BaseRunner> r;
            if (i < s.workers) { r.reset(new Stage2Runner(in.c_str(), bytes, s.banks, master)); closure[i] = new Second(sh, &s); }
            else { r.reset(new Stage3Runner(in.c_str(), bytes, s.banks, master)); closure[i] = new Third(sh, &s); }
            r->register_python_listener(reducers[i], transfers[i]);
            return r;
        };
        if (processes)
        {
            std::vector<pid_t> kids;
            for (int i = 0; i <= s.workers; i++)
            {
                pid_t p = fork();
                if (!p)
                {
                    {
                        auto r = worker(i, true);
                        r->start();
                        r->wait();
                    }
                    if (i == s.workers) finish(sh, *(Third *)closure[i], whole);
                    sh->done++;
                    _exit(0);
                }
                kids.push_back(p);
            }
            s1->start();
            int bad = 0;
            // A dead worker would leave the others waiting for ever.
            for (size_t left = kids.size(); left;)
            {
                int st = 0;
                pid_t p = waitpid(-1, &st, 0);
                if (p <= 0) break;
                left--;
                if (!WIFEXITED(st) || WEXITSTATUS(st)) { bad = st ? st : 1; break; }
            }
            if (bad)
            {
                for (pid_t k : kids) { kill(k, SIGKILL); waitpid(k, nullptr, 0); }
                pl::leftovers(true);
                // Stage 1 waits for banks nobody will free: the case cannot go on in this process.
                fprintf(stderr, "a worker process died (%s %d)\n", WIFSIGNALED(bad) ? "signal" : "status", WIFSIGNALED(bad) ? WTERMSIG(bad) : WEXITSTATUS(bad));
                abort();
            }
            s1->wait();
        }
        else
        {
            std::vector<std::unique_ptr<BaseRunner>> rs;
            for (int i = 0; i <= s.workers; i++) rs.push_back(worker(i, false));
            s1->start();
            for (auto& r : rs) r->start();
            s1->wait();
            for (auto& r : rs) r->wait();
            finish(sh, *(Third *)closure[s.workers], whole);
            rs.clear();
            for (int i = 0; i <= s.workers; i++) delete closure[i];
        }
    }
    if (sh->trouble) c.fail(sh->what);
    uint64_t fed = parser.fed, sum = 0, squares = 0;
    for (uint64_t i = 0; i < fed; i++) sum += i, squares += i * i;
    if (sh->given != fed || sh->numbers != sum || sh->squares != squares) c.fail(std::to_string(sh->given) + " banks with numbers that add up to " + std::to_string(sh->numbers) + " go to the parallel workers, of " + std::to_string(fed) + " filled");
    for (size_t at = 0; at < sh->words;)
    {
        uint64_t *p = sh->log + at;
        got.push_back(pl::Call{(int)p[0], (long)p[1], (long)p[2], std::vector<uint64_t>(p + 4, p + 4 + p[3])});
        at += 4 + p[3];
    }
    if (got.size() != want.size()) c.fail(std::to_string(got.size()) + " reductions for " + std::to_string(want.size()) + " nodes");
    if (whole && !(got.back() == want.back())) c.fail("the last reduction is " + pl::show(got.back()) + ", not the root's " + pl::show(want.back()));
    if (whole && (!!sh->has_result != !!answer || answer && sh->result != answer)) c.fail("the result is not the root's value");
    std::sort(got.begin(), got.end());
    std::sort(want.begin(), want.end());
    for (size_t i = 0; i < want.size(); i++)
        if (!(want[i] == got[i])) c.fail("reduction " + pl::show(got[i]) + ", serially " + pl::show(want[i]));
    size_t nb = (t.marks.size() + s.per_bank - 1) / s.per_bank;
    c.label(nb == 1 ? "one bank" : nb <= (size_t)s.banks ? "banks used once" : "banks reused");
    c.nontrivial = nb > 1 && t.n.size() > 2;
}
static int reg = (
    pbt::add("threads", 12000, 200000, [](pbt::Case& c) { python(c, 60, false); }, {true, 60, 60, true, 4}),
    pbt::add("huge", 40, 600, [](pbt::Case& c) { python(c, 0, c.g.chance(30)); }, {true, 120, 120, true, 3}),
    pbt::add("large", 1500, 20000, [](pbt::Case& c) { python(c, 6000, false); }, {true, 60, 60, true, 4}),
    pbt::add("processes", 2500, 40000, [](pbt::Case& c) { python(c, 300, true); }, {true, 60, 60, true, 4}), 0);
PBT_MAIN
