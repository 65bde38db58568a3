// The pipeline's life cycle: nothing is left behind, whatever was there before, and the input is served whole.
#include "pipeline.hpp"
#include <sys/mman.h>
using namespace Centaurus;

static long sum(const SymbolEntry *sym, uint64_t *values, int n, void *ctx)
{
    uint64_t v = 1;
    for (int i = 0; i < n; i++) v += values[i];
    ((std::atomic<uint64_t> *)ctx)->store(v);       // the root comes last
    return (long)v;
}
static int mappings(const std::string& what)
{
    std::ifstream f("/proc/self/maps");
    std::string l;
    int n = 0;
    while (std::getline(f, l)) n += l.find(what) != std::string::npos;
    return n;
}
// Read-only pages of no file: what pads an input.
static int padding()
{
    std::ifstream f("/proc/self/maps");
    std::string l;
    int n = 0;
    while (std::getline(f, l))
    {
        std::istringstream s(l);
        std::string range, perm, off, dev, inode, name;
        s >> range >> perm >> off >> dev >> inode >> name;
        n += perm == "r--p" && inode == "0" && name.empty();
    }
    return n;
}
static std::string abspath(const std::string& p) { char b[4096]; return realpath(p.c_str(), b) ? b : p; }
static void run(pbt::Case& c, const std::string& in, const pl::Tree& t, const pl::Scenario& s, bool backwards, std::function<void()> before_end = {})
{
    std::atomic<uint64_t> last(0);
    std::atomic<int> count(0);
    pl::FakeParser parser(t.marks, s);
    size_t bytes = s.per_bank * 8;
    std::vector<BaseRunner *> all;
    Stage1Runner *s1 = new Stage1Runner(in.c_str(), &parser, bytes, s.banks);
    all.push_back(s1);
    for (int i = 0; i < s.workers; i++)
    {
        Stage2Runner *s2 = new Stage2Runner(in.c_str(), bytes, s.banks, getpid(), &last, &count);
        s2->register_listener(sum);
        all.push_back(s2);
    }
    Stage3Runner *s3 = new Stage3Runner(in.c_str(), bytes, s.banks, getpid(), &last, &count);
    s3->register_listener(sum);
    all.push_back(s3);
    for (auto r : all) r->start();
    for (auto r : all) r->wait();
    if (before_end) before_end();
    if (backwards) for (auto i = all.rbegin(); i != all.rend(); ++i) delete *i;
    else for (auto r : all) delete r;
    if (count != (int)t.n.size() || last != t.n.size()) c.fail("the run reduced " + std::to_string(count.load()) + " nodes to " + std::to_string(last.load()) + " instead of " + std::to_string(t.n.size()));
}
static void history(pbt::Case& c)
{
    pl::leftovers(true);
    std::string in = pl::input("0123456789"), missing = in + ".none";
    {
        // Whatever the process sets up once is set up now.
        pl::Tree t = pl::tree(c.g, 3);
        pl::Scenario s = pl::scenario(c.g);
        run(c, in, t, s, false);
        pl::leftovers(true);
    }
    int fds = pl::open_fds(), threads = pl::threads(), pads = padding();
    int ops = 1 + (int)c.g.below(6), stale = 0;
    for (int i = 0; i < ops; i++)
    {
        pl::Tree t = pl::tree(c.g, 60);
        pl::Scenario s = pl::scenario(c.g);
        size_t bytes = s.per_bank * 8;
        bool expect_stale = false;
        switch (c.g.weighted({5, 3, 2, 2, 2}))
        {
        case 0:
            c.show("run " + pl::show(s));
            run(c, in, t, s, c.g.chance(50));
            break;
        case 1:
        {
            // A process of the same number ended without cleaning up.
            c.show("die after " + pl::show(s));
            run(c, in, t, s, c.g.chance(50), [] { for (auto& n : pl::leftovers()) { std::string p = "/dev/shm/" + n; if (link(p.c_str(), (p + ".kept").c_str())) abort(); } });
            for (auto& n : pl::leftovers()) if (n.size() > 5 && n.substr(n.size() - 5) == ".kept") { std::string p = "/dev/shm/" + n; if (rename(p.c_str(), p.substr(0, p.size() - 5).c_str())) abort(); expect_stale = true; }
            stale++;
            break;
        }
        case 2:
        {
            c.show("dry " + pl::show(s));
            pl::FakeParser parser(t.marks, s);
            Stage1Runner r(in.c_str(), &parser, bytes, s.banks, true, false);
            r.start();
            r.wait();
            if (r.get_result() != parser.answer) c.fail("a dry run gives another result than the parser");
            break;
        }
        case 3:
        {
            c.show("set up and drop " + pl::show(s));
            pl::FakeParser parser(t.marks, s);
            Stage1Runner a(in.c_str(), &parser, bytes, s.banks);
            if (c.g.chance(50)) { Stage2Runner b(in.c_str(), bytes, s.banks, getpid()); }
            if (c.g.chance(50)) { Stage3Runner b(in.c_str(), bytes, s.banks, getpid()); }
            break;
        }
        default:
        {
            c.show("missing input");
            pl::FakeParser parser(t.marks, s);
            bool thrown = false;
            // Absent, or a directory.
            std::string bad = c.g.chance(70) ? missing : in.substr(0, in.rfind('/'));
            try { Stage1Runner a(bad.c_str(), &parser, bytes, s.banks); } catch (const std::exception&) { thrown = true; }
            if (!thrown) c.fail("a missing input is not reported");
            break;
        }
        }
        if (expect_stale) { c.label("stale objects"); continue; }
        auto left = pl::leftovers();
        // Only a new run has to do away with what a dead process left.
        if (!left.empty() && !stale) c.fail("left behind: " + left[0]);
        if (stale && pl::leftovers().empty()) stale = 0;
    }
    if (int n = mappings(PROGRAM_UUID)) c.fail(std::to_string(n) + " shared windows are still mapped");
    if (int n = mappings("/dev/shm/")) c.fail(std::to_string(n) + " shared objects are still mapped");
    if (padding() > pads) c.fail(std::to_string(padding() - pads) + " more read-only pages of no file than before");
    if (int n = mappings(abspath(in))) c.fail(std::to_string(n) + " mappings of the input are left");
    if (pl::open_fds() != fds) c.fail(std::to_string(pl::open_fds() - fds) + " more open files than before");
    // A joined thread takes a moment to leave the list of threads.
    for (int i = 0; i < 200 && pl::threads() > threads; i++) usleep(1000);
    if (pl::threads() > threads) c.fail(std::to_string(pl::threads() - threads) + " more threads than before");
    pl::leftovers(true);
    c.nontrivial = ops > 1;
}
static void content(pbt::Case& c)
{
    long page = sysconf(_SC_PAGESIZE);
    size_t size;
    switch (c.g.weighted({2, 4, 3, 1}))
    {
    case 0: size = c.g.below(40); break;
    case 1: size = page * c.g.range(1, 3) - 20 + c.g.below(40); break;
    case 2: size = page * c.g.range(1, 4); break;
    default: size = c.g.below(40000); break;
    }
    if (c.g.chance(5)) size = 0;
    c.label(size == 0 ? "empty" : size % page == 0 ? "whole pages" : size % page > page - 16u ? "ends near a page's end" : "other");
    std::string text(size, 0);
    uint64_t x = c.g.below(1000000);
    for (size_t i = 0; i < size; i++) text[i] = (char)(1 + pbt::mix(x + i) % 255);
    c.show(std::to_string(size) + " bytes, text " + std::to_string(x));
    pl::leftovers(true);
    std::string in = pl::input(text);
    pl::Tree t = pl::tree(c.g, 5);
    pl::Scenario s = pl::scenario(c.g);
    pl::FakeParser parser(t.marks, s);
    size_t bytes = s.per_bank * 8;
    auto look = [&](const char *p, const char *who) {
        if (size && memcmp(p, text.data(), size)) c.fail(std::string(who) + " sees another input");
        // Parsers read to a terminating zero, in steps of 16 bytes.
        for (size_t i = size; i < size + 16; i++) if (p[i]) c.fail(std::string(who) + ": the input is not followed by zeros");
    };
    Stage1Runner s1(in.c_str(), &parser, bytes, s.banks, true, false);
    if (s1.get_input_size() != size) c.fail("stage 1 reports " + std::to_string(s1.get_input_size()) + " bytes");
    look((const char *)s1.get_input(), "stage 1");
    const void *seen = nullptr;
    parser.at_input = [&](const void *p) { seen = p; look((const char *)p, "the parser"); };
    Stage2Runner s2(in.c_str(), bytes, s.banks, getpid());
    look((const char *)s2.get_input(), "stage 2");
    Stage3Runner s3(in.c_str(), bytes, s.banks, getpid());
    look((const char *)s3.get_input(), "stage 3");
    s1.start();
    s1.wait();
    if (seen != s1.get_input()) c.fail("the parser is given another place than the input's");
    c.nontrivial = size > 0;
}
static int reg = (
    pbt::add("history", 10000, 100000, history, {true, 60, 60, true, 4}),
    pbt::add("content", 20000, 200000, content, {true, 60, 60, true, 4}), 0);
PBT_MAIN
