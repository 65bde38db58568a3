// Reading grammar files: rules, numbers, root, layout, includes, errors.
#include "load.hpp"
using namespace Centaurus;

static gr::Opts any_opts(pbt::Gen& g)
{
    gr::Opts o;
    o.left_recursion = g.chance(30);
    o.repeat_nullable = true;
    o.priorities = true;
    o.max_rules = g.chance(20) ? 10 : 5;
    o.sizes = g.chance(30);
    o.rxo.neg = o.rxo.dot = true;
    o.chars = g.chance(50) ? "abcd01" : "aB0 _;:|(){}[]*+?/.,-^&%$#@!~<>='";
    o.rxo.chars = "abcd01";
    return o;
}
static void flatten(const gr::Alt& a, const gr::Gram& gm, std::multiset<std::string>& out)
{
    for (auto& s : a.seqs)
        for (auto& i : s)
            switch (i.kind)
            {
            case gr::Item::Lit: out.insert("lit " + pbt::quote(i.lit) + " " + std::to_string(i.localid)); break;
            case gr::Item::Re: out.insert("regex " + std::to_string(i.localid)); break;
            case gr::Item::NT: out.insert("call " + gm.rules[i.nt].name + " " + std::to_string(i.localid)); break;
            case gr::Item::Group: flatten(*i.group, gm, out); break;
            }
}
template<typename T> static void structure_of(pbt::Case& c, const Grammar<T>& G, const gr::Gram& gm, int first, const char *what)
{
    std::string w(what);
    auto names = ld::enumerate(G);
    if (names.size() != gm.rules.size()) c.fail(w + ": " + std::to_string(names.size()) + " rules enumerated, " + std::to_string(gm.rules.size()) + " written");
    if (G.get_machine_num() != (int)gm.rules.size()) c.fail(w + ": get_machine_num is wrong");
    if (ld::narrow(G.get_root_id().str()) != gm.rules[0].name) c.fail(w + ": the root is " + ld::narrow(G.get_root_id().str()));
    for (size_t i = 0; i < gm.rules.size(); i++)
    {
        Identifier id(rx::widen(gm.rules[i].name));
        if (names[i].first != gm.rules[i].name || names[i].second != (int)i + 1) c.fail(w + ": rule " + std::to_string(i + 1) + " is enumerated as " + names[i].first + " = " + std::to_string(names[i].second));
        if (G.get_machine_id(id) != (int)i + first) c.fail(w + ": get_machine_id(" + gm.rules[i].name + ") is " + std::to_string(G.get_machine_id(id)));
        if (!(G.lookup_id((int)i) == id)) c.fail(w + ": lookup_id(" + std::to_string(i) + ") is wrong");
        std::multiset<std::string> want, got = ld::items_of(G[id]);
        flatten(gm.rules[i].alt, gm, want);
        if (got != want)
        {
            std::string m = w + ": the items of rule " + gm.rules[i].name + " are";
            for (auto& x : got) m += " <" + x + ">";
            m += ", written were";
            for (auto& x : want) m += " <" + x + ">";
            c.fail(m);
        }
    }
}
template<typename T> static void structure(pbt::Case& c)
{
    gr::Gram gm = gr::generate(c.g, any_opts(c.g));
    gr::Layout l;
    l.g = &c.g;
    if (c.g.chance(30)) l.nl = "\r\n";
    std::string text = gr::print(gm, l);
    c.show(text);
    Grammar<T> G;
    int next = G.parse(ld::file(text));
    if (next != (int)gm.rules.size() + 1) c.fail("parse() returned " + std::to_string(next));
    structure_of(c, G, gm, 1, "parsed");
    std::string before = ld::dump(G);
    Grammar<T> H(std::move(G));
    structure_of(c, H, gm, 1, "moved");
    if (ld::dump(H) != before) c.fail("moving the grammar changed it");
    H.optimize();
    structure_of(c, H, gm, 1, "optimised");
    c.nontrivial = gm.rules.size() > 1;
}
// Layout between tokens means nothing.
static void layout(pbt::Case& c)
{
    gr::Gram gm = gr::generate(c.g, any_opts(c.g));
    std::string plain = gr::print(gm);
    gr::Layout l;
    l.g = &c.g;
    int k = c.g.below(3);
    if (k == 1) l.nl = "\r\n";
    std::string text = gr::print(gm, l);
    if (k == 2) text += c.g.pick(std::vector<std::string>{"// end", "/* end */", " ", "\t\n", "/***/", "//"});
    c.show("plain:\n" + plain + "laid out:\n" + text);
    Grammar<char> A, B;
    ld::load(A, plain);
    ld::load(B, text);
    std::string a = ld::dump(A), b = ld::dump(B);
    if (a != b) c.fail("layout changes the grammar:\n" + a + "---\n" + b);
    c.label(k == 1 ? "CR LF" : "LF");
    c.nontrivial = text.find("//") != std::string::npos || text.find("/*") != std::string::npos;
}
// A grammar split over included files is the grammar with the text pasted in.
static void includes(pbt::Case& c)
{
    gr::Gram gm = gr::generate(c.g, any_opts(c.g));
    std::string plain = gr::print(gm);
    std::string d = ld::dir();
    mkdir(d.c_str(), 0700);
    mkdir((d + "/sub").c_str(), 0700);
    mkdir((d + "/sub/deep").c_str(), 0700);
    int files = 0, depth = 0, again = 0;
    gr::Layout l;
    std::string listing;
    std::vector<size_t> seen;
    // A file included twice, or a rule given twice alike, is there once. Writes rules [a, b) as file text in directory level lv.
    std::function<std::string(size_t, size_t, int)> emit = [&](size_t a, size_t b, int lv) -> std::string {
        std::string out;
        for (size_t i = a; i < b;)
        {
            if (lv < 3 && files < 6 && c.g.chance(40))
            {
                size_t e = i + 1 + c.g.below((uint32_t)(b - i));
                std::string name = "inc" + std::to_string(files++) + ".cgr";
                bool down = lv < 2 && c.g.chance(50);
                static const char *path[] = {"", "sub/", "sub/deep/"};
                int nlv = lv + (down ? 1 : 0);
                depth = std::max(depth, nlv);
                std::string body = emit(i, e, down ? lv + 1 : lv);
                gr::write_file(d + "/" + path[nlv] + name, body);
                listing += "[" + std::string(path[nlv]) + name + "]\n" + body;
                std::string rel = (down ? (lv == 0 ? "sub/" : "deep/") : "") + name;
                std::string from = rel;
                if (c.g.chance(10)) { char cwd[4096]; if (getcwd(cwd, sizeof cwd)) rel = std::string(cwd) + "/" + d + "/" + path[nlv] + name; }
                out += "include " + std::string(c.g.chance(20) ? "/* c */ " : "") + "\"" + rel + "\"" + (c.g.chance(20) ? " " : "") + ";\n";
                i = e;
                if (c.g.chance(15)) { out += "include \"" + from + "\";\n"; again++; }
                if (!seen.empty() && c.g.chance(15)) { out += gr::print_rule(gm, gm.rules[c.g.pick(seen)], l); again++; }
            }
            else { out += gr::print_rule(gm, gm.rules[i], l); seen.push_back(i); i++; }
        }
        return out;
    };
    std::string top = emit(0, gm.rules.size(), 0);
    gr::write_file(d + "/top.cgr", top);
    c.show(listing + "[top.cgr]\n" + top);
    Grammar<char> A, B;
    ld::load(A, plain);
    int next = B.parse(d + "/top.cgr");
    if (next != (int)gm.rules.size() + 1) c.fail("parse() returned " + std::to_string(next));
    std::string a = ld::dump(A), b = ld::dump(B);
    if (a != b) c.fail("splitting the grammar into included files changes it:\n" + a + "---\n" + b);
    if (depth) c.label("subdirectory");
    if (again) c.label("something is there twice");
    c.nontrivial = files > 0;
}
static bool rejected(const std::string& text, std::string& what)
{
    Grammar<char> G;
    try { ld::load(G, text); }
    catch (const std::exception& e) { what = e.what(); return true; }
    return false;
}
// A file cut off inside a rule is rejected, one cut off between rules gives the rules before the cut.
static void truncated(pbt::Case& c)
{
    gr::Opts o = any_opts(c.g);
    gr::Gram gm = gr::generate(c.g, o);
    std::string text = gm.name.empty() ? "" : "grammar " + gm.name + " ;\n";
    size_t head = text.size();
    std::vector<std::pair<size_t, size_t>> spans;
    gr::Layout l;
    if (c.g.chance(40)) l.g = &c.g;
    for (auto& r : gm.rules)
    {
        size_t st = text.size();
        std::string s = gr::print_rule(gm, r, l);
        size_t semi = s.rfind(';');
        // The last ';' of the printed rule may sit in a comment after it: print without trailing layout instead.
        gr::Layout plain;
        s = gr::print_rule(gm, r, plain);
        semi = s.rfind(';');
        text += s;
        spans.push_back({st, st + semi + 1});
    }
    size_t cut = c.g.below((uint32_t)text.size());
    std::string part = text.substr(0, cut), what;
    c.show(part + "<cut>\n");
    bool inside = cut > 0 && cut < head && text.substr(0, cut).find(';') == std::string::npos;
    size_t whole = 0;
    for (auto& s : spans)
    {
        if (cut > s.first && cut < s.second) inside = true;
        if (cut >= s.second) whole++;
    }
    bool rej = rejected(part, what);
    if (inside && !rej) c.fail("a file cut off inside a rule is accepted");
    if (!inside && rej) c.fail("a file cut off between rules is rejected: " + what);
    if (!inside)
    {
        Grammar<char> G;
        ld::load(G, part);
        if (G.get_machine_num() != (int)whole) c.fail(std::to_string(G.get_machine_num()) + " rules read of " + std::to_string(whole));
    }
    c.label(inside ? "inside" : "between");
    c.nontrivial = inside && cut > 8;
}
// Pieces of a printed grammar, for damaging it.
static std::vector<std::string> pieces(const gr::Gram& gm)
{
    std::vector<std::string> t;
    std::function<void(const gr::Alt&)> alt = [&](const gr::Alt& a) {
        for (size_t k = 0; k < a.seqs.size(); k++)
        {
            if (k) t.push_back(a.prio[k] ? "|>" : "|");
            for (auto& i : a.seqs[k])
            {
                if (i.kind == gr::Item::Group) { t.push_back("("); alt(*i.group); t.push_back(")"); }
                else
                {
                    gr::Item j = i;
                    j.post = 0;
                    j.localid = -1;
                    gr::Layout l;
                    t.push_back(gr::print_item(gm, j, l));
                    if (i.localid >= 0) { t.push_back("{"); t.push_back(std::to_string(i.localid)); t.push_back("}"); }
                }
                if (i.post) t.push_back(std::string(1, i.post));
            }
        }
    };
    for (auto& r : gm.rules) { t.push_back(r.name); t.push_back(":"); alt(r.alt); t.push_back(";"); }
    return t;
}
// Text that is not a grammar is rejected, and the message names the line (the line of the offence or of the last text before it).
static void malformed(pbt::Case& c)
{
    gr::Opts o = any_opts(c.g);
    gr::Gram gm = gr::generate(c.g, o);
    std::vector<std::string> t = pieces(gm);
    int kind = c.g.below(5);
    size_t at = c.g.below((uint32_t)t.size());
    auto find = [&](const std::string& x) { std::vector<size_t> v; for (size_t i = 0; i < t.size(); i++) if (t[i] == x) v.push_back(i); return v; };
    std::string did;
    bool positioned = false;
    switch (kind)
    {
    case 0:                                      // a character no construct starts with
        positioned = true;
        did = c.g.pick(std::vector<std::string>{"@", "=", "]", "%", "&", "!", "<", ">", ",", "#", "\\", "1", "-", "."});
        t.insert(t.begin() + at, did);
        if (at > 0 && (t[at - 1] == "|" || t[at - 1] == "{" ) && (did == ">" || did == "1")) c.discard("that is a construct");
        if (at > 0 && t[at - 1].find_first_not_of("0123456789") == std::string::npos) positioned = false;
        break;
    case 1: case 2:                              // a missing piece
    {
        std::vector<size_t> v = find(kind == 1 ? ":" : c.g.chance(50) ? ")" : "(");
        if (v.empty()) c.discard("no such piece");
        at = c.g.pick(v);
        did = "without a " + t[at];
        t.erase(t.begin() + at);
        break;
    }
    case 3:                                      // a missing end of rule, not the last one (nor, in front of nothing, that one)
    {
        std::vector<size_t> v = find(";");
        at = c.g.pick(v);
        did = "without a ;";
        t.erase(t.begin() + at);
        break;
    }
    case 4:                                      // a doubled separator
    {
        std::vector<size_t> v = find(c.g.chance(50) ? ";" : ":");
        at = c.g.pick(v);
        did = "two of " + t[at];
        t.insert(t.begin() + at, t[at]);
        break;
    }
    }
    std::string nl = c.g.chance(30) ? "\r\n" : "\n", text;
    int line = 1, bad_line = 0, prev_line = 1;
    for (size_t i = 0; i < t.size(); i++)
    {
        if (i == at) bad_line = line;
        text += t[i];
        if (i < at) prev_line = line;
        if (c.g.chance(40)) { int k = c.g.range(1, 2); while (k--) { text += c.g.chance(25) ? "// y" + nl : nl; line++; } }
        else if (c.g.chance(10)) { text += " /* z" + nl + "*/ "; line++; }
        else text += " ";
    }
    c.show(did + "\n" + text);
    std::string what;
    if (!rejected(text, what)) c.fail("accepted although it is not a grammar (" + did + ")");
    if (positioned)
    {
        size_t p = what.find("Line ");
        if (p == std::string::npos) c.fail("the message names no line: " + what);
        int said = atoi(what.c_str() + p + 5);
        if (said < prev_line || said > bad_line) c.fail("the message names line " + std::to_string(said) + ", the offence is on line " + std::to_string(bad_line) + ": " + what);
        if (bad_line > 1) c.label("positioned past line 1");
    }
    c.label(did.substr(0, 7));
    c.nontrivial = t.size() > 6;
}
// Files that include one another without end are refused, at one of the includes of the circle; a chain that ends is read.
static void circular(pbt::Case& c)
{
    std::string d = ld::dir();
    static const std::vector<std::string> dirs = {"", "sub/", "sub/deep/"};
    mkdir(d.c_str(), 0700);
    mkdir((d + "/sub").c_str(), 0700);
    mkdir((d + "/sub/deep").c_str(), 0700);
    int n = 1 + c.g.below(c.g.chance(20) ? 30 : 5);
    bool ends = c.g.chance(25);
    int back = c.g.below(n);
    std::vector<std::string> dir(n);
    for (auto& x : dir) x = c.g.pick(dirs);
    char cwd[4096];
    if (!getcwd(cwd, sizeof cwd)) cwd[0] = 0;
    std::set<int> lines;
    std::string listing, names;
    for (int i = 0; i < n; i++)
    {
        std::string text, rest;
        int before = c.g.below(3), after = c.g.below(3);
        for (int k = 0; k < before; k++) text += "R" + std::to_string(i) + "_" + std::to_string(k) + " : 'a" + std::to_string(k) + "' ;" + (c.g.chance(70) ? "\n" : " ");
        if (i == 0 && !before) { text += "R0_0 : 'x' ;\n"; }
        for (int k = 0; k < after; k++) rest += "S" + std::to_string(i) + "_" + std::to_string(k) + " : 'b' ;\n";
        for (int k = c.g.below(4); k > 0; k--) text += c.g.chance(50) ? "\n" : "// c\n";
        if (i + 1 < n || !ends)
        {
            int to = i + 1 < n ? i + 1 : back;
            std::string up = dir[i].empty() ? "" : dir[i] == "sub/" ? "../" : "../../", path;
            std::string name = "f" + std::to_string(to) + ".cgr";
            if (c.g.chance(10)) path = std::string(cwd) + "/" + d + "/" + dir[to] + name;
            else if (dir[to] == dir[i] && c.g.chance(60)) path = (c.g.chance(20) ? "./" : "") + name;
            else path = up + dir[to] + name;
            if (i + 1 == n || i >= back) lines.insert(1 + (int)std::count(text.begin(), text.end(), '\n'));
            text += "include \"" + path + "\";\n";
        }
        text += rest;
        gr::write_file(d + "/" + dir[i] + "f" + std::to_string(i) + ".cgr", text);
        listing += "[" + dir[i] + "f" + std::to_string(i) + ".cgr]\n" + text;
    }
    c.show(listing);
    Grammar<char> G;
    std::string what;
    bool rej = false;
    try { G.parse(d + "/" + dir[0] + "f0.cgr"); }
    catch (const std::exception& e) { rej = true; what = e.what(); }
    if (ends)
    {
        if (rej) c.fail("files that include one another in a chain are refused: " + what);
        c.label("a chain that ends");
    }
    else
    {
        if (!rej) c.fail("files that include one another without end are accepted");
        size_t p = what.find("Line ");
        // By way of .., the path may get too long to be opened before the depth is noticed.
        if (p == std::string::npos) { if (what.find("f") == std::string::npos) c.fail("the message names neither a line nor a file: " + what); c.label("named by the file"); }
        else if (!lines.count(atoi(what.c_str() + p + 5))) c.fail("the message names none of the lines with an include of the circle: " + what);
        c.label(n == 1 ? "includes itself" : back == 0 ? "a circle through the first file" : "a circle further in");
    }
    Grammar<char> H;
    ld::load(H, "grammar G;\nR : 'a' ;\n");
    c.nontrivial = true;
}
// A byte that is no character of a grammar file does not pass for its end.
static void foreign(pbt::Case& c)
{
    gr::Gram gm = gr::generate(c.g, any_opts(c.g));
    gr::Layout l;
    l.g = &c.g;
    if (c.g.chance(30)) l.nl = "\r\n";
    std::string text = gr::print(gm, l);
    std::vector<size_t> notes;                   // comments, where it is most at home
    for (size_t p = text.find("//"); p != std::string::npos; p = text.find("//", p + 1)) notes.push_back(p + 2);
    for (size_t p = text.find("/*"); p != std::string::npos; p = text.find("/*", p + 1)) notes.push_back(p + 2);
    size_t at = notes.empty() || c.g.chance(50) ? c.g.below((uint32_t)text.size() + 1) : c.g.pick(notes);
    std::string odd = c.g.pick(std::vector<std::string>{"\xc3\xa9", "\xe9", "\xff", "\x80", "\xe2\x82\xac", "\xef\xbb\xbf", std::string(1, '\0')});
    text.insert(at, odd);
    int line = 1 + (int)std::count(text.begin(), text.begin() + at, '\n');
    bool first = at > 0 && text[at - 1] == '\n', included = c.g.chance(20);
    c.show((included ? "included: " : "") + pbt::quote(text));
    std::string what;
    bool rej;
    if (included)
    {
        std::string d = ld::dir();
        mkdir(d.c_str(), 0700);
        gr::write_file(d + "/inc.cgr", text);
        gr::write_file(d + "/top.cgr", "\n\ninclude \"inc.cgr\";\nLAST : 'x' ;\n");
        Grammar<char> G;
        try { G.parse(d + "/top.cgr"); rej = false; }
        catch (const std::exception& e) { what = e.what(); rej = true; }
    }
    else rej = rejected(text, what);
    if (!rej) c.fail("a file with a byte outside ASCII is accepted");
    size_t p = what.find("Line ");
    if (p == std::string::npos) c.fail("the message names no line: " + what);
    int said = atoi(what.c_str() + p + 5);
    if (said != line && !(first && said == line - 1)) c.fail("the message names line " + std::to_string(said) + ", the offence is on line " + std::to_string(line) + ": " + what);
    c.label(odd[0] ? "outside ASCII" : "NUL");
    c.nontrivial = at > 0 && at + odd.size() < text.size();
}
static int reg = (
    pbt::add("structure", 120000, 800000, structure<char>),
    pbt::add("structure-wide", 20000, 100000, structure<wchar_t>),
    pbt::add("layout", 80000, 600000, layout),
    pbt::add("includes", 60000, 300000, includes),
    pbt::add("truncated", 120000, 800000, truncated),
    pbt::add("malformed", 120000, 800000, malformed, {true, 20}),
    pbt::add("circular", 4000, 40000, circular, {true, 20}),
    pbt::add("foreign", 40000, 300000, foreign, {true, 20}), 0);
PBT_MAIN
