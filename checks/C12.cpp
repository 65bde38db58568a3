// Stage 1 hands on the parser's marker stream, complete and in order, and its result.
#include "pipeline.hpp"
using namespace Centaurus;

static long none(const SymbolEntry *, uint64_t *, int, void *) { return 1; }
static std::vector<uint64_t> stream(const Stage1Runner& r, pbt::Case& c, const pl::Scenario& s)
{
    std::vector<uint64_t> out;
    for (auto& chunk : r.result_chunks())
    {
        if (chunk.size() != (size_t)s.per_bank) c.fail("a chunk of " + std::to_string(chunk.size()) + " markers from banks of " + std::to_string(s.per_bank));
        for (auto& m : chunk)
        {
            if (m.get_machine_id() == 0 && m.get_offset() == 0) break;
            if (m.is_start_marker() == m.is_end_marker()) c.fail("a marker is neither start nor end");
            if (m.is_sv_marker()) c.fail("a start or end marker reads as a value marker");
            out.push_back(((uint64_t)m.is_start_marker() << 63) | ((uint64_t)m.get_machine_id() << 48) | m.get_offset());
        }
    }
    return out;
}
static void compare(pbt::Case& c, const std::vector<uint64_t>& got, const std::vector<uint64_t>& want)
{
    for (size_t i = 0; i < std::max(got.size(), want.size()); i++)
    {
        if (i >= got.size()) c.fail("the stream ends after " + std::to_string(i) + " of " + std::to_string(want.size()) + " markers");
        if (i >= want.size()) c.fail("the stream goes on after " + std::to_string(i) + " markers");
        if (got[i] != want[i]) c.fail("marker " + std::to_string(i) + " differs");
    }
}
static void capture(pbt::Case& c, bool live, bool huge = false)
{
    pl::Tree t = huge ? pl::huge(c.g) : pl::tree(c.g, c.g.chance(80) ? 80 : 5000);
    pl::Scenario s = huge ? pl::huge_scenario(c.g) : pl::scenario(c.g);
    std::vector<uint64_t> marks = t.marks;
    bool captured = c.g.chance(85);
    // A parser that gives up stops anywhere.
    if (!live && c.g.chance(30)) { marks.resize(c.g.below(marks.size() + 1)); c.label("cut short"); }
    std::string text = c.g.chance(80) ? "some text" : std::string(c.g.below(9000), 'x');
    const void *answer = c.g.chance(30) ? nullptr : &text;
    c.show(pl::show(s) + std::to_string(marks.size()) + " markers " + pl::show(t) + (captured ? "\ncaptured\n" : "\n"));
    pl::leftovers(true);
    std::string in = pl::input(text);
    int rounds = c.g.chance(20) ? 2 : 1;
    for (int round = 0; round < rounds; round++)
    {
        pl::FakeParser parser(marks, s);
        parser.answer = answer;
        const char *seen = nullptr;
        bool same = false;
        parser.at_input = [&](const void *p) { seen = (const char *)p; same = !memcmp(p, text.data(), text.size()); };
        size_t bytes = s.per_bank * 8;
        std::vector<std::unique_ptr<BaseRunner>> rest;
        std::unique_ptr<Stage1Runner> s1(new Stage1Runner(in.c_str(), &parser, bytes, s.banks, !live, captured));
        if (live)
        {
            for (int i = 0; i < s.workers; i++)
            {
                Stage2Runner *s2 = new Stage2Runner(in.c_str(), bytes, s.banks, getpid());
                rest.emplace_back(s2);
                s2->register_listener(none);
            }
            Stage3Runner *s3 = new Stage3Runner(in.c_str(), bytes, s.banks, getpid());
            rest.emplace_back(s3);
            s3->register_listener(none);
        }
        s1->start();
        for (auto& r : rest) r->start();
        s1->wait();
        for (auto& r : rest) r->wait();
        if (s1->get_result() != answer) c.fail("not the parser's result");
        if (seen != s1->get_input() || !same) c.fail("the parser is not given the input");
        if (s1->get_input_size() != text.size()) c.fail("input size " + std::to_string(s1->get_input_size()) + " for " + std::to_string(text.size()) + " bytes");
        if (!captured) { if (!s1->result_chunks().empty()) c.fail("chunks kept without being asked to"); }
        else
        {
            compare(c, stream(*s1, c, s), marks);
            if ((int)s1->result_chunks().size() != parser.fed) c.fail(std::to_string(s1->result_chunks().size()) + " chunks for " + std::to_string(parser.fed) + " banks");
        }
        for (auto& ch : s1->result_chunks()) delete[] (char *)ch.begin();
    }
    size_t nb = (marks.size() + s.per_bank - 1) / s.per_bank;
    c.label(captured ? nb <= 1 ? "one bank" : nb <= (size_t)s.banks ? "banks used once" : "banks reused" : "not captured");
    c.nontrivial = captured && nb > 1;
}
static void marker(pbt::Case& c)
{
    int id = 1 + (int)c.g.below(0x7FFF);
    uint64_t off = c.g.chance(30) ? c.g.below(4) : c.g.chance(50) ? c.g.below((uint64_t)1 << 48) : ((uint64_t)1 << 48) - 1 - c.g.below(3);
    c.show(std::to_string(id) + " " + std::to_string(off));
    uint64_t v = ((uint64_t)id << 48) | off;
    CSTMarker s(v | ((uint64_t)1 << 63)), e(v), x(off | ((uint64_t)1 << 63)), z(off);
    if (!s.is_start_marker() || s.is_end_marker() || s.is_sv_marker()) c.fail("start marker misread");
    if (e.is_start_marker() || !e.is_end_marker() || e.is_sv_marker()) c.fail("end marker misread");
    if (x.is_start_marker() || x.is_end_marker() || !x.is_sv_marker()) c.fail("value marker misread");
    if (z.is_start_marker() || z.is_end_marker() || z.is_sv_marker()) c.fail("no marker misread");
    if (s.get_machine_id() != id || e.get_machine_id() != id || x.get_machine_id() != 0) c.fail("rule number misread");
    if (s.get_offset() != off || e.get_offset() != off || x.get_offset() != off) c.fail("offset misread");
    char base[8];
    if ((const char *)s.offset_ptr(base) != base + off || (const char *)e.offset_ptr(base) != base + off) c.fail("position misread");
    c.nontrivial = true;
}
static int reg = (
    pbt::add("dry", 12000, 200000, [](pbt::Case& c) { capture(c, false); }, {true, 60, 60, true, 4}),
    pbt::add("huge", 40, 600, [](pbt::Case& c) { capture(c, c.g.chance(50), true); }, {true, 120, 120, true, 3}),
    pbt::add("live", 4000, 80000, [](pbt::Case& c) { capture(c, true); }, {true, 60, 60, true, 4}),
    pbt::add("marker", 100000, 2000000, marker), 0);
PBT_MAIN
