// The command line tool: drawings, verdicts, refusals.
#include "hostile.hpp"
#include "atnmodel.hpp"
#include "derived.hpp"
#include "firstcalls.hpp"
#include "proc.hpp"
using namespace Centaurus;

static void quiet() { static hs::Null *sink = new hs::Null; std::wcerr.rdbuf(sink); }
static const std::string& plain() { static const std::string p = env_path("centaurus"); return p; }
static const std::string& sanitized() { static const std::string p = env_path("centaurus_asan"); return p; }
static std::string told(const std::vector<std::string>& a) { std::string s; for (auto& x : a) s += " " + pbt::quote(x); return s; }
static bool ended(const Ran& r, int code) { return WIFEXITED(r.status) && WEXITSTATUS(r.status) == code; }
static std::string how(const Ran& r) { return WIFEXITED(r.status) ? "exit " + std::to_string(WEXITSTATUS(r.status)) : "signal " + std::to_string(WTERMSIG(r.status)); }
// Refused in order: an exit status of its own and a message, no crash.
static void refused(pbt::Case& c, const Ran& r, const std::string& why)
{
    if (r.hung) c.fail("does not end although " + why);
    if (!WIFEXITED(r.status)) c.fail("killed by signal " + std::to_string(WTERMSIG(r.status)) + " although only " + why + "\n" + r.err.substr(0, 1500));
    int code = WEXITSTATUS(r.status);
    if (code == 99 || code == 127) c.fail("crashes when " + why + "\n" + r.err.substr(0, 3000));
    if (code == 0) c.fail("exits with 0 although " + why);
    if (r.err.empty()) c.fail("says nothing although " + why);
}
template<typename F> static bool drawing(F print, std::string& out)
{
    std::wostringstream o;
    try { print(o); }
    catch (const std::exception&) { return false; }
    out = ld::narrow(o.str());
    return true;
}
struct Line
{
    std::string command;
    std::vector<std::vector<std::string>> parts;       // in any order
    std::vector<std::string> before;                   // options in front of the command
    std::vector<std::string> args(pbt::Gen& g) const
    {
        std::vector<std::string> a = before;
        a.push_back(command);
        auto p = parts;
        while (!p.empty()) { size_t k = g.below((uint32_t)p.size()); for (auto& x : p[k]) a.push_back(x); p.erase(p.begin() + k); }
        return a;
    }
};
static std::string either(pbt::Gen& g, const char *a, const char *b) { return g.chance(50) ? b : a; }
static gr::Gram some(pbt::Gen& g)
{
    gr::Gram gm;
    if (g.chance(12)) return gr::chain(g, g.range(5, 14));
    if (g.chance(60) && dv::make(g, gm, false, true)) return gm;
    gr::Opts o;
    o.recursion = false;
    o.max_rules = 3;
    o.max_depth = 1;
    o.rxo.depth = 1;
    o.chars = "ab01";
    return gr::generate(g, o);
}
// Where the drawing is asked to go. Adds the option to the line; empty: standard output.
static std::string outfile(pbt::Gen& g, Line& l)
{
    int k = g.weighted({3, 2, 2});
    if (k == 0) return "";
    std::string f = ld::dir() + "/out.dot";
    unlink(f.c_str());
    if (g.chance(40)) gr::write_file(f, g.chance(50) ? "an old drawing\n" : std::string(g.range(1, 4000), 'x'));   // replaced
    std::vector<std::string> o = {either(g, "-f", "--outfile"), f};
    if (k == 1) l.parts.push_back(o);
    else l.before = o;
    return f;
}
static void compare(pbt::Case& c, Line& l, const std::string& want)
{
    std::string f = outfile(c.g, l);
    auto a = l.args(c.g);
    c.show("centaurus" + told(a) + "\n");
    Ran r = run_program(plain(), a);
    if (r.hung) c.discard("too long");
    if (!ended(r, 0)) c.fail(how(r) + ", a drawing expected\n" + r.err.substr(0, 500));
    if (!r.err.empty()) c.fail("drawn, but with the message " + pbt::quote(r.err.substr(0, 300)));
    std::string got = f.empty() ? r.out : slurp(f);
    if (!f.empty() && !r.out.empty()) c.fail("something is written to standard output although an output file is given");
    if (got != want) c.fail((f.empty() ? std::string("standard output") : "the output file") + " is not what the library draws:\n" + got.substr(0, 1500) + "\n--- library:\n" + want.substr(0, 1500));
    c.label(f.empty() ? "to standard output" : "to a file");
}
static void patterns(pbt::Case& c)
{
    rx::Opts o;
    o.depth = 2;
    rx::P p = rx::generate(c.g, o);
    std::string text = rx::print(p);
    // Only characters an argument may hold; what a pattern beginning like an option or a command means is the command line's business.
    for (unsigned char ch : text) if (ch < 32 || ch > 126) c.discard("not printable");
    if (text.empty() || text[0] == '-' || text.compare(0, 9, "generate-") == 0) c.discard("looks like an option");
    Line l;
    bool dfa = c.g.chance(50);
    l.command = dfa ? "generate-dfa" : "generate-nfa";
    l.parts.push_back({"-e", text});
    if (dfa && c.g.chance(30)) l.parts.push_back({"--optimize"});
    Stream st(rx::widen(text));
    NFA<char> nfa(st);
    std::string want;
    if (!drawing([&](std::wostream& w) { if (dfa) DFA<char>(nfa).print(w, L"DFA"); else nfa.print(w, L"NFA"); }, want)) c.discard("not drawable");
    mkdir(ld::dir().c_str(), 0700);
    compare(c, l, want);
    c.nontrivial = nfa.get_state_num() > 3;
}
static void grammars(pbt::Case& c)
{
    pbt::Gen& g = c.g;
    gr::Gram gm = some(g);
    c.show(gr::print(gm));
    std::string path = ld::file(gr::print(gm));
    Grammar<char> G(path.c_str());
    Line l;
    l.parts.push_back({either(g, "-g", "--grammar-file"), path});
    std::string want;
    bool fine = false;
    Identifier id = am::ident(g.pick(gm.rules).name);
    int at = (int)g.below(G[id].get_node_num() + 1);
    std::string where = ld::narrow(id.str()) + "." + std::to_string(at);
    switch (g.range(0, 4))
    {
    case 0:
    {
        int d = gm.rules.size() > 4 ? g.range(0, 16) : g.range(0, 4);
        bool opt = g.chance(30);
        l.command = "generate-atn";
        l.parts.push_back({either(g, "-d", "--max-depth"), std::to_string(d)});
        if (opt) l.parts.push_back({"--optimize"});
        fine = drawing([&](std::wostream& w) { static_cast<IGrammar&>(G).print_grammar(w, d, opt); }, want);
        break;
    }
    case 1:
        l.command = "generate-catn";
        l.parts.push_back({either(g, "-m", "--machine"), ld::narrow(id.str())});
        fine = drawing([&](std::wostream& w) { static_cast<IGrammar&>(G).print_catn(w, id); }, want);
        break;
    case 2:
    case 3:
    {
        // A node that is a regex, if there is one.
        std::vector<std::pair<Identifier, int>> re;
        for (auto& r : gm.rules) { Identifier x = am::ident(r.name); for (int i = 0; i < G[x].get_node_num(); i++) if (G[x].get_node(i).type() == ATNNodeType::RegularTerminal) re.push_back({x, i}); }
        if (!re.empty() && g.chance(85)) { auto& p = g.pick(re); id = p.first; at = p.second; where = ld::narrow(id.str()) + "." + std::to_string(at); }
        bool dfa = g.chance(50), opt = dfa && g.chance(40);
        l.command = dfa ? "generate-dfa" : "generate-nfa";
        l.parts.push_back({either(g, "-p", "--path"), where});
        if (opt) l.parts.push_back({"--optimize"});
        fine = drawing([&](std::wostream& w) { ATNPath p(id, at); if (dfa) static_cast<IGrammar&>(G).print_dfa(w, p, opt); else static_cast<IGrammar&>(G).print_nfa(w, p); }, want);
        break;
    }
    case 4:
    {
        auto ds = am::decisions_of(G, gm);
        if (!ds.empty() && g.chance(85)) { auto& p = g.pick(ds); id = Identifier(p.first); at = p.second; where = ld::narrow(id.str()) + "." + std::to_string(at); }
        l.command = "generate-ldfa";
        l.parts.push_back({either(g, "-p", "--path"), where});
        if (at >= G[id].get_node_num()) break;
        fine = drawing([&](std::wostream& w) { static_cast<IGrammar&>(G).print_ldfa(w, ATNPath(id, at)); }, want);
        break;
    }
    }
    if (fine) { c.label(l.command); compare(c, l, want); }
    else
    {
        auto a = l.args(g);
        c.show("centaurus" + told(a) + "\n");
        Ran r = run_program(plain(), a);
        refused(c, r, "there is nothing to draw at " + where);
        if (!r.out.empty()) c.fail("half a drawing");
        c.label("nothing to draw");
    }
    c.nontrivial = fine && want.size() > 300;
}
static void verdicts(pbt::Case& c)
{
    quiet();
    pbt::Gen& g = c.g;
    gr::Gram gm;
    std::string text;
    int want = -1;              // unknown: as the library says
    if (g.chance(30)) { if (!dv::make(g, gm, false, true)) c.discard("too large"); text = gr::print(gm); want = 0; }
    else
    {
        gr::Opts o;
        o.plain_tokens = true;
        o.left_recursion = g.chance(60);
        o.max_rules = 3;
        o.max_depth = 1;
        o.max_alts = 2;
        o.max_seq = 2;
        o.ll = g.chance(50);
        o.chars = "abc";
        gm = gr::generate(g, o);
        text = gr::print(gm);
        if (gr::acyclic(gm)) want = 0;
        if (gr::FirstCalls(gm).bad()) want = 1;
        if (gm.rules.size() > 1 && g.chance(25))
        {
            // Without its last rule; called or not, the text says.
            gr::Layout l;
            text = "grammar G;\n";
            for (size_t r = 0; r + 1 < gm.rules.size(); r++) text += gr::print_rule(gm, gm.rules[r], l);
            std::function<bool(const gr::Alt&)> calls = [&](const gr::Alt& a) { for (auto& s : a.seqs) for (auto& i : s) { if (i.kind == gr::Item::NT && i.nt + 1 == (int)gm.rules.size()) return true; if (i.kind == gr::Item::Group && calls(*i.group)) return true; } return false; };
            bool called = false;
            for (size_t r = 0; r + 1 < gm.rules.size(); r++) called |= calls(gm.rules[r].alt);
            want = called ? 1 : -1;
        }
    }
    std::string path = ld::file(text);
    if (want < 0) { Grammar<char> G(path.c_str()); want = !static_cast<IGrammar&>(G).verify(); c.label("verdict of the library"); }
    else c.label(want ? "known to be unsound" : "known to be sound");
    Line l;
    l.command = "verify-grammar";
    l.parts.push_back({either(g, "-g", "--grammar-file"), path});
    auto a = l.args(g);
    c.show(text + "centaurus" + told(a) + "\n");
    Ran r = run_program(plain(), a);
    if (r.hung) c.discard("too long");
    if (!ended(r, want)) c.fail(how(r) + ", exit " + std::to_string(want) + " expected\n" + r.err.substr(0, 500));
    if (want && r.err.empty()) c.fail("refused without a word");
    if (!r.out.empty()) c.fail("a verdict with output on standard output");
    c.label(want ? "refused" : "accepted");
    c.nontrivial = gm.rules.size() > 1;
}
static void misuse(pbt::Case& c)
{
    pbt::Gen& g = c.g;
    gr::Gram gm = some(g);
    std::string text = gr::print(gm), path = ld::file(text), why, to;
    Identifier root = am::ident(gm.rules[0].name);
    Line l;
    std::string R = gm.rules[0].name;
    switch (g.range(0, 6))
    {
    case 0: l.command = "generate-atn"; l.parts = {{"-g", path}, {"-d", "2"}}; break;
    case 1: l.command = "generate-catn"; l.parts = {{"-g", path}, {"-m", R}}; break;
    case 2: l.command = "verify-grammar"; l.parts = {{"-g", path}}; break;
    case 3: l.command = "generate-nfa"; l.parts = {{"-e", "a+b"}}; break;
    case 4: l.command = "generate-dfa"; l.parts = {{"-e", "a+b"}}; break;
    case 5: l.command = "generate-ldfa"; l.parts = {{"-g", path}, {"-p", R + ".0"}}; break;
    case 6: l.command = "generate-nfa"; l.parts = {{"-g", path}, {"-p", R + ".0"}}; break;
    }
    bool e = l.parts[0][0] == "-e", draws = l.command != "verify-grammar";
    std::string f = ld::dir() + "/out.dot";
    unlink(f.c_str());
    unlink((ld::dir() + "/nothing.cgr").c_str());
    switch (g.range(0, 12))
    {
    case 0: why = "an option is missing"; l.parts.erase(l.parts.begin() + g.below((uint32_t)l.parts.size())); break;
    case 1: why = "the command is unknown"; l.command = g.pick(std::vector<std::string>{"generate", "verify", "generate-xfa", "Generate-nfa", "help"}); break;
    case 2: why = "an option is unknown"; l.parts.push_back({g.pick(std::vector<std::string>{"--bogus", "-x", "--Optimize"})}); break;
    case 3: why = "there are two commands"; l.parts.push_back({"verify-grammar"}); break;
    case 4: why = "the option's value is missing"; l.parts.assign(1, {g.pick(std::vector<std::string>{"-g", "-e", "-f", "-p", "-d", "-m"})}); break;
    case 5: why = "the grammar file does not exist"; if (e) c.discard("no grammar"); l.parts[0][1] = ld::dir() + "/nothing.cgr"; break;
    case 6: why = "the output file cannot be made"; if (!draws) c.discard("nothing drawn"); l.before = {"-f", ld::dir() + "/none/out.dot"}; break;
    case 7: why = "the output cannot be written"; if (!draws || l.command == "generate-ldfa" || (!e && l.command == "generate-nfa")) c.discard("nothing drawn"); if (g.chance(50)) l.before = {"-f", "/dev/full"}; else to = "/dev/full"; break;
    case 8:
    {
        why = "the grammar is no grammar";
        if (e) { why = "the pattern is no pattern"; l.parts[0][1] = g.pick(std::vector<std::string>{"(a", "[a", "a|(b", "[^", "(", "a\\"}); break; }
        size_t at = text.find(':');
        text[at] = "=;|)#"[g.below(5)];
        ld::file(text);
        break;
    }
    case 9:
        if (e || !draws) c.discard("no path");
        why = "there is no such rule or node";
        if (l.parts[1][0] == "-d") l.parts[1][1] = g.pick(std::vector<std::string>{"x", "1.5", "two", "1x"});
        else if (l.parts[1][0] == "-m") l.parts[1][1] = "Nothing";
        else l.parts[1][1] = g.pick(std::vector<std::string>{"Nothing.0", R + ".9999", R + ".99999999999", R, R + ".", R + ".x", R + "/1", "." + R, ".0", R + ".0/", R + ".0 ", R + ".0x"});
        break;
    case 10:
        why = "an argument is outside what can be converted";
        if (e) l.parts[0][1] = std::string("a\xc3\xa9") + (g.chance(50) ? "b" : "");
        else if (draws && l.parts[1][0] != "-d") l.parts[1][1] = R + "\xc3\xa9";
        else c.discard("no text");
        break;
    case 11: why = "there are too many values"; l.parts[0].push_back("surplus"); break;
    case 12:
        why = "the grammar file is a directory";
        if (e) c.discard("no grammar");
        l.parts[0][1] = ld::dir();
        break;
    }
    if (g.chance(25) && l.before.empty() && to.empty()) l.before = {"-f", f};
    auto a = l.args(g);
    c.show("centaurus" + told(a) + (to.empty() ? "" : " > " + to) + "\n" + why + "\n");
    Ran r = run_program(g.chance(50) ? sanitized() : plain(), a, to, 20, false);
    refused(c, r, why);
    if (!r.out.empty()) c.fail("something is drawn although " + why);
    if (slurp(f).size()) c.fail("something is drawn into the output file although " + why);
    c.label(why);
    c.nontrivial = true;
}
static void help(pbt::Case& c)
{
    pbt::Gen& g = c.g;
    std::string path = ld::file("grammar G;\nS : 'a' ;\n");
    Line l;
    l.command = "verify-grammar";
    l.parts = {{"-g", path}};
    std::string f = ld::dir() + "/out.dot";
    unlink(f.c_str());
    if (g.chance(50)) { l.command = "generate-nfa"; l.parts = {{"-e", "a"}}; }
    l.before = {either(g, "-h", "--help")};
    if (g.chance(50)) { l.parts.push_back(l.before); l.before.clear(); if (l.parts.size() > 1 && !g.chance(100)) std::swap(l.parts[0], l.parts[1]); }
    std::vector<std::string> a = l.before;
    a.push_back(l.command);
    for (auto& p : l.parts) for (auto& x : p) a.push_back(x);
    c.show("centaurus" + told(a) + "\n");
    Ran r = run_program(plain(), a);
    if (!ended(r, 0)) c.fail(how(r) + " when help is asked for");
    for (auto k : {"generate-atn", "generate-catn", "generate-nfa", "generate-ldfa", "generate-dfa", "verify-grammar", "--outfile", "--help"})
        if ((r.err + r.out).find(k) == std::string::npos) c.fail(std::string("the help says nothing about ") + k);
    c.nontrivial = true;
}
static void hostile(pbt::Case& c)
{
    pbt::Gen& g = c.g;
    gr::Opts o;
    o.left_recursion = g.chance(30);
    o.max_rules = 2;
    o.max_depth = 1;
    o.max_alts = o.max_seq = 2;
    o.chars = "ab0";
    gr::Gram gm = gr::generate(g, o);
    std::string text = hs::damage(g, gr::print(gm), hs::grammar_bits(), g.chance(60) ? 2 : 6), path, R = gm.rules[0].name;
    if (hs::depth_of(text) > 40) c.discard("deep");
    path = ld::file(text);
    Line l;
    std::string where = R + "." + std::to_string(g.range(0, 12));
    if (g.chance(20)) where = hs::damage(g, where, {".", "/", "0", "_", " ", "99999999999", "-1"}, 2);
    switch (g.range(0, 6))
    {
    case 0: l.command = "generate-atn"; l.parts = {{"-g", path}, {"-d", std::to_string(g.range(0, 3))}}; break;
    case 1: l.command = "generate-catn"; l.parts = {{"-g", path}, {"-m", R}}; break;
    case 2: l.command = "verify-grammar"; l.parts = {{"-g", path}}; break;
    case 3: l.command = "generate-nfa"; l.parts = {{"-g", path}, {"-p", where}}; break;
    case 4: l.command = "generate-dfa"; l.parts = {{"-g", path}, {"-p", where}}; break;
    case 5: l.command = "generate-ldfa"; l.parts = {{"-g", path}, {"-p", where}}; break;
    case 6:
    {
        rx::Opts ro;
        std::string p = hs::damage(g, rx::print(rx::generate(g, ro)), hs::regex_bits(), 3);
        if (p.size() > 40) p.resize(40);
        p = p.c_str();
        l.command = g.chance(50) ? "generate-dfa" : "generate-nfa";
        l.parts = {{"-e", p}};
        break;
    }
    }
    auto a = l.args(g);
    for (auto& x : a) x = x.c_str();
    c.show(pbt::quote(text) + "\ncentaurus" + told(a) + "\n");
    Ran r = run_program(sanitized(), a, "", 5, false);
    if (r.hung) c.discard("too long");
    if (!WIFEXITED(r.status)) c.fail("killed by signal " + std::to_string(WTERMSIG(r.status)) + "\n" + r.err.substr(0, 2000));
    int code = WEXITSTATUS(r.status);
    if (code != 0 && code != 1 && code != 255) c.fail("crashes\n" + r.err.substr(0, 3000));
    if (code == 0 && l.command != "verify-grammar" && r.out.empty()) c.fail("exits with 0 and draws nothing");
    if (code && r.err.empty()) c.fail("refuses without a word");
    c.label(code ? "refused" : "accepted");
    c.nontrivial = text.size() > 10;
}
static int reg = (
    pbt::add("patterns", 4000, 60000, patterns, {false, 10}),
    pbt::add("grammars", 6000, 90000, grammars, {false, 10}),
    pbt::add("verdicts", 4000, 60000, verdicts, {false, 3, 180, false, 0, 20}),
    pbt::add("misuse", 4000, 60000, misuse, {false, 30}),
    pbt::add("help", 100, 1000, help, {false, 30}),
    pbt::add("hostile", 3000, 60000, hostile, {false, 30}), 0);
PBT_MAIN
