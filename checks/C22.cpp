// The grammars shipped in grammars/ read the formats they are for: whole documents through the C++ interface.
#include "load.hpp"
#include "machine.hpp"
#include "Context.hpp"
#include <deque>
#include <mutex>
using namespace Centaurus;

// Values are strings kept until the end of the case.
static std::mutex lock;
static std::deque<std::string> kept;
static std::vector<std::string> roots;      // what the callback of the root was given, put together
static std::vector<std::string> tops;       // xml: every element
static void *keep(std::string s)
{
    std::lock_guard<std::mutex> g(lock);
    kept.push_back(std::move(s));
    return &kept.back();
}
typedef SymbolContext<char> SC;
static std::string text(const SC& c)
{
    std::string s = c.read();
    size_t p = s.find_first_not_of(" \t\r\n");
    return p == std::string::npos ? "" : s.substr(p);
}
static std::string all(const SC& c, const char *sep = "")
{
    std::string s;
    for (int i = 1; i <= c.count(); i++) { if (i > 1) s += sep; s += *c.value<std::string>(i); }
    return s;
}
template<char L> static void *leaf(const SC& c) { return keep(std::string(L == '_' ? 0 : 1, L) + text(c)); }
template<char L> static void *sign(const SC& c) { return keep(std::string(1, L)); }
template<char L> static void *node(const SC& c) { return keep(std::string(1, L) + "(" + all(c, " ") + ")"); }
static void *pass(const SC& c) { return keep(all(c)); }
static void *root(const SC& c) { std::string s = all(c, " "); std::lock_guard<std::mutex> g(lock); roots.push_back(s); return nullptr; }

// calc: the value, modulo 2^32, one more so that no value is null.
static std::vector<uint32_t> results;
static uint32_t num(const SC& c, int i) { return (uint32_t)((uint64_t)c.value<void>(i) - 1); }
static void *number(uint32_t v) { return (void *)((uint64_t)v + 1); }
static void *calc_input(const SC& c) { std::lock_guard<std::mutex> g(lock); results.push_back(num(c, 1)); return nullptr; }
static void *calc_expr(const SC& c) { return c.count() == 1 ? number(num(c, 1)) : number(num(c, 1) + num(c, 2)); }
static void *calc_term(const SC& c) { return c.count() == 1 ? number(num(c, 1)) : number(num(c, 1) * num(c, 2)); }
static void *calc_fact(const SC& c)
{
    if (c.count() == 1) return number(num(c, 1));
    uint32_t v = 0;
    for (char ch : text(c)) v = v * 10 + (ch - '0');
    return number(v);
}
// json: the document without its whitespace. The root is the object that is the beginning of the file.
static const std::string *current;
static void *json_list(const SC& c) { return keep("[" + all(c, ",") + "]"); }
static void *json_dict(const SC& c) { return keep("{" + all(c, ",") + "}"); }
static void *json_entry(const SC& c) { return keep(all(c, ":")); }
static void *json_top(const SC& c)
{
    std::string s = all(c);
    if ((size_t)c.len() <= current->size() && !memcmp(c.start(), current->data(), c.len())) { std::lock_guard<std::mutex> g(lock); roots.push_back(s); }
    return keep(std::move(s));
}
static void *xml_element(const SC& c)
{
    std::string s = "E(" + all(c, " ") + ")";
    { std::lock_guard<std::mutex> g(lock); tops.push_back(s); }
    return keep(s);
}

struct Attach { const wchar_t *name; CppReductionCallback<char> cb; };
struct Shipped { std::string name; std::vector<Attach> cbs; };
static const std::vector<Attach> json_cbs = {
    {L"Object", json_top}, {L"Number", leaf<'_'>}, {L"String", leaf<'_'>}, {L"List", json_list}, {L"Dict", json_dict},
    {L"DictEntry", json_entry}, {L"False", leaf<'_'>}, {L"True", leaf<'_'>}, {L"Null", leaf<'_'>}};
static std::vector<Attach> with_json(std::vector<Attach> v) { v.insert(v.end(), json_cbs.begin(), json_cbs.end()); return v; }
static const std::vector<Shipped> shipped = {
    {"calc", {{L"INPUT", calc_input}, {L"EXPR", calc_expr}, {L"TERM", calc_term}, {L"FACT", calc_fact}}},
    {"json", json_cbs},
    {"citylots", with_json({{L"RootObject", root}, {L"FeatureList", pass}, {L"FeatureDict", node<'F'>}, {L"PropertyDict", node<'P'>}, {L"TargetPropertyEntry", sign<'t'>},
                            {L"OtherPropertyEntry", node<'o'>}, {L"TargetPropertyKey", sign<'K'>}, {L"OtherPropertyKey", leaf<'_'>}, {L"OtherPropertyValue", leaf<'_'>}})},
    {"citylots_eager", with_json({{L"RootObject", root}, {L"FeatureList", pass}, {L"FeatureObject", pass}, {L"TargetFeatureObject", node<'T'>}, {L"OtherFeatureObject", node<'O'>},
                                  {L"TargetPropertyDictionary", node<'P'>}, {L"OtherPropertyDictionary", node<'P'>}})},
    {"dblp", {{L"Document", root}, {L"XmlDecl", node<'x'>}, {L"DocType", node<'d'>}, {L"DblpRoot", node<'D'>}, {L"Article", node<'A'>}, {L"NonArticle", node<'N'>}, {L"NonArticleName", leaf<'_'>},
              {L"YearInfo", pass}, {L"TargetYearInfo", sign<'T'>}, {L"OtherYearInfo", sign<'Y'>}, {L"NonYearInfo", node<'n'>}, {L"NonYearInfoName", leaf<'_'>}, {L"HtmlContent", node<'h'>},
              {L"HtmlElemName", leaf<'_'>}, {L"Text", leaf<'='>}, {L"Attribute", node<'a'>}, {L"AttrName", leaf<'_'>}, {L"Value", leaf<'_'>}}},
    {"dblp_schema", {{L"Document", root}, {L"XmlDecl", node<'x'>}, {L"DocType", node<'d'>}, {L"DblpRoot", node<'D'>}, {L"PubRecord", node<'R'>}, {L"PubRecordName", leaf<'_'>}, {L"BibInfo", pass},
                     {L"FlatBibInfo", node<'f'>}, {L"FlatBibInfoName", leaf<'_'>}, {L"HtmlBibInfo", node<'H'>}, {L"HtmlBibInfoName", leaf<'_'>}, {L"HtmlContent", node<'h'>},
                     {L"HtmlElemName", leaf<'_'>}, {L"Text", leaf<'='>}, {L"Attribute", node<'a'>}, {L"AttrName", leaf<'_'>}, {L"Value", leaf<'_'>}}},
    {"xml", {{L"Document", root}, {L"XmlDecl", node<'x'>}, {L"DocType", node<'d'>}, {L"Element", xml_element}, {L"ElementBody", node<'b'>}, {L"Content", leaf<'='>}, {L"Attribute", node<'a'>}, {L"Name", leaf<'_'>}, {L"Value", leaf<'_'>}}}};

// The document being written, what it means and where a stray character would break it.
struct Doc
{
    pbt::Gen& g;
    std::string s;
    int spacing;                            // percent of places with whitespace
    std::vector<size_t> edges;
    int budget;
    explicit Doc(pbt::Gen& g, int budget) : g(g), spacing(g.pick(std::vector<int>{0, 0, 10, 60})), budget(budget) { }
    void ws()
    {
        edges.push_back(s.size());
        if (!g.chance(spacing)) return;
        int n = g.range(1, 3);
        for (int i = 0; i < n; i++) s += " \n\t\r"[g.weighted({5, 2, 1, 1})];
    }
    void tok(const std::string& t) { ws(); s += t; }
    bool more(int percent) { return --budget > 0 && g.chance(percent); }

    // calc
    uint32_t fact(int d)
    {
        if (d > 0 && more(40)) { tok("("); uint32_t v = expr(d - 1); tok(")"); return v; }
        std::string n;
        int len = g.weighted({0, 8, 4, 2, 1, 1, 1, 1, 1, 1});
        if (g.chance(3)) len = g.range(10, 40);
        for (int i = 0; i < len; i++) n += (char)('0' + g.below(10));
        tok(n);
        uint32_t v = 0;
        for (char ch : n) v = v * 10 + (ch - '0');
        return v;
    }
    uint32_t term(int d) { uint32_t v = fact(d); if (more(35)) { tok("*"); v *= term(d); } return v; }
    uint32_t expr(int d) { uint32_t v = term(d); if (more(50)) { tok("+"); v += expr(d); } return v; }

    // json
    std::string string_token(const std::string& stem = "")
    {
        std::string t = "\"" + stem;
        int n = g.weighted({2, 4, 4, 4, 2, 2, 1});
        if (g.chance(5)) n = g.range(14, 70);
        for (int i = 0; i < n; i++)
            switch (g.weighted({12, 3, 2, 1, 1}))
            {
            case 0: t += (char)('a' + g.below(26)); break;
            case 1: t += " {}[]:,'/*+-0123.<>"[g.below(19)]; break;
            case 2: t += "\\\""; break;
            case 3: t += g.pick(std::vector<std::string>{"\xc3\xa9", "\xe2\x82\xac", "\x80", "\xfe"}); break;
            default: t += (char)(1 + g.below(31)); break;
            }
        return t + "\"";
    }
    std::string number_token()
    {
        std::string t = g.chance(30) ? "-" : "";
        int n = g.chance(5) ? g.range(15, 50) : g.range(1, 5);
        for (int i = 0; i < n; i++) t += (char)('0' + g.below(10));
        if (g.chance(40)) { t += "."; n = g.chance(10) ? g.range(15, 40) : g.range(0, 4); for (int i = 0; i < n; i++) t += (char)('0' + g.below(10)); }
        return t;
    }
    std::vector<size_t> closing;            // of strings: escaping one leaves an odd number of quotes that count
    std::string plain(const std::string& t) { tok(t); if (t[0] == '"') closing.push_back(s.size() - 1); return t; }
    std::string entry(int d) { std::string k = plain(string_token()); tok(":"); return k + ":" + object(d); }
    std::string object(int d)
    {
        switch (d > 0 && budget > 0 ? g.weighted({3, 3, 4, 4, 1, 1, 1}) : g.weighted({3, 3, 0, 0, 1, 1, 1}))
        {
        case 0: return plain(number_token());
        case 1: return plain(string_token());
        case 2: return list(d - 1);
        case 3: return dict(d - 1);
        case 4: return plain("false");
        case 5: return plain("true");
        default: return plain("null");
        }
    }
    std::string list(int d)
    {
        tok("[");
        std::string r = "[";
        if (g.chance(85)) { r += object(d); while (more(70)) { tok(","); r += "," + object(d); } }
        tok("]");
        return r + "]";
    }
    std::string dict(int d)
    {
        tok("{");
        std::string r = "{";
        if (g.chance(85)) { r += entry(d); while (more(60)) { tok(","); r += "," + entry(d); } }
        tok("}");
        return r + "}";
    }

    // citylots: words around a given one, none of them its beginning.
    std::string near(const std::string& w)
    {
        if (g.chance(40))
        {
            std::string t = "\"";
            size_t n = g.below((uint32_t)w.size());
            t += w.substr(0, n);
            char ch;
            do ch = g.chance(50) ? (char)('A' + g.below(26)) : " az09_\\:,{"[g.below(10)]; while (ch == w[n] || ch == '"');
            t += ch;
            n = g.range(0, 8);
            if (g.chance(5)) n += 30;
            for (size_t i = 0; i < n; i++) t += "STREJFON _ab\\"[g.below(13)];
            return t + "\"";
        }
        return "\"" + g.pick(std::vector<std::string>{"BLKLOT", "MAPBLKLOT", "ODD_EVEN", "ST_TYPE", "STTREET", "STREEX", "XSTREET", "ZJEFFERSON", "JEFFERSOM", "KEARNY", "street", "1"}) + "\"";
    }
    // What a property's value may not be near: the words are spelled so that these are never a beginning of the target.
    bool fits(const std::string& t, const std::string& w)
    {
        std::string in = t.substr(1, t.size() - 2);
        if (in.empty()) return false;
        return in.compare(0, w.size(), w) != 0 && w.compare(0, in.size(), in) != 0;
    }
    std::string property(bool& hit)
    {
        if (g.chance(40))
        {
            tok("\"STREET\"");
            tok(":");
            switch (g.weighted({4, 4, 1}))
            {
            case 0: tok("\"JEFFERSON\""); hit = true; return "t";
            case 1: { std::string v; do v = near("JEFFERSON"); while (!fits(v, "JEFFERSON")); tok(v); return "o(K " + v + ")"; }
            default: tok("null"); return "o(K null)";
            }
        }
        std::string k;
        do k = near("STREET"); while (!fits(k, "STREET"));
        tok(k);
        tok(":");
        std::string v = g.chance(20) ? "null" : g.chance(20) ? "\"JEFFERSON\"" : string_token();
        tok(v);
        return "o(" + k + " " + v + ")";
    }
    void pair(const char *k, const char *v) { tok(k); tok(":"); tok(v); }
    std::string feature()
    {
        tok("{"); pair("\"type\"", "\"Feature\""); tok(","); tok("\"properties\""); tok(":"); tok("{");
        bool hit = false;
        std::string p = property(hit);
        while (more(60)) { tok(","); p += " " + property(hit); }
        tok("}"); tok(","); tok("\"geometry\""); tok(":");
        std::string o = object(3);
        tok("}");
        return "F(P(" + p + ") " + o + ")";
    }
    std::string eager_feature()
    {
        tok("{"); pair("\"type\"", "\"Feature\""); tok(","); tok("\"properties\""); tok(":"); tok("{");
        std::string p;
        for (const char *k : {"\"MAPBLKLOT\"", "\"BLKLOT\"", "\"BLOCK_NUM\"", "\"LOT_NUM\"", "\"FROM_ST\"", "\"TO_ST\""})
        {
            std::string v = k[1] != 'F' && k[1] != 'T' || g.chance(70) ? string_token() : "null";
            tok(k); tok(":"); tok(v); tok(",");
            p += (p.empty() ? "" : " ") + v;
        }
        tok("\"STREET\""); tok(":");
        bool target = g.chance(40);
        if (target) tok("\"JEFFERSON\"");
        else if (g.chance(15)) tok("null");
        else { std::string v; do v = near("JEFFERSON"); while (!fits(v, "JEFFERSON")); tok(v); }
        while (more(50)) { tok(","); p += " " + entry(1); }
        tok("}"); tok(","); tok("\"geometry\""); tok(":");
        std::string o = object(2);
        tok("}");
        return std::string(target ? "T" : "O") + "(P(" + p + ") " + o + ")";
    }
    void lots_head() { tok("{"); pair("\"type\"", "\"FeatureCollection\""); tok(","); tok("\"features\""); tok(":"); tok("["); }
    void lots_end() { tok("]"); tok("}"); }
    std::string lot(bool eager) { return eager ? eager_feature() : feature(); }
    std::string lots(bool eager)
    {
        lots_head();
        std::string r = lot(eager);
        while (more(80)) { tok(","); r += lot(eager); }
        lots_end();
        return r;
    }

    // xml and dblp
    std::string word() { std::string w(1, (char)("abcxyzABC"[g.below(9)])); int n = g.range(0, 5); if (g.chance(3)) n = 25; for (int i = 0; i < n; i++) w += "abz019_Q"[g.below(8)]; return w; }
    std::string value()
    {
        std::string v = "\"";
        int n = g.chance(5) ? g.range(14, 60) : g.range(0, 8);
        for (int i = 0; i < n; i++) v += "ab<>/= '1&;\n-"[g.below(13)];
        return v + "\"";
    }
    std::string attrs()
    {
        std::string r;
        int n = g.weighted({5, 3, 1, 1});
        for (int i = 0; i < n; i++)
        {
            std::string a = word();
            s += " ";
            tok(a); tok("=");
            std::string v = value();
            tok(v);
            r += " a(" + a + " " + v + ")";
        }
        return r;
    }
    // Text up to the next tag; leading whitespace is skipped, not part of it.
    std::string content()
    {
        std::string t;
        if (g.chance(60))
        {
            if (g.chance(30)) s += " ";
            int n = g.chance(5) ? g.range(14, 80) : g.range(1, 12);
            for (int i = 0; i < n; i++) t += "abc xyz 019 \">'&;=/-\n"[g.below(21)];
            if (g.chance(10)) t += "\xc3\xbc";
        }
        s += t;
        size_t p = t.find_first_not_of(" \t\r\n");
        return "=" + (p == std::string::npos ? "" : t.substr(p));
    }
    void sure(const std::string& t) { edges.push_back(s.size() + 1); s += t; }   // breaking after the first character
    std::string html(int d)
    {
        std::string n = g.pick(std::vector<std::string>{"i", "sub", "sup", "tt", "ref"});
        sure("<"); tok(n); tok(">");
        std::string r = "h(" + n + " " + content();
        while (d > 0 && more(30)) { r += " " + html(d - 1); r += " " + content(); }
        sure("</" + n + ">");
        return r + ")";
    }
    std::string info(const std::vector<std::string>& names, bool mixed, char letter)
    {
        std::string n = g.pick(names);
        tok("<"); tok(n);
        std::string r = std::string(1, letter) + "(" + n + attrs();
        tok(">");
        r += " " + content();
        while (mixed && more(35)) { r += " " + html(2); r += " " + content(); }
        sure("</" + n + ">");
        return r + ")";
    }
    std::string dblp_head()
    {
        tok("<?xml");
        std::string a = attrs();
        std::string r = "x(" + (a.empty() ? a : a.substr(1)) + ")";
        tok("?>"); tok("<!DOCTYPE"); s += " "; tok("dblp"); s += " "; tok("SYSTEM");
        std::string v = value();
        tok(v); tok(">");
        tok("<dblp>");
        return r + " d(" + v + ") ";
    }
    std::string record(bool schema)
    {
        static const std::vector<std::string> kinds = {"book", "incollection", "inproceedings", "mastersthesis", "phdthesis", "proceedings", "www"};
        static const std::vector<std::string> flat = {"address", "author", "cdrom", "chapter", "cite", "crossref", "editor", "ee", "isbn", "journal", "month", "note", "number", "pages", "publisher", "school", "series", "url", "volume"};
        static const std::vector<std::string> texts = {"booktitle", "title"};
        std::vector<std::string> names = flat, years = flat;
        names.insert(names.end(), texts.begin(), texts.end());
        years.push_back("year");
        bool article = g.chance(50);
        std::string kind = article ? "article" : g.pick(kinds);
        if (article && !schema) tok("<article"); else { tok("<"); tok(kind); }
        std::string a = attrs();
        tok(">");
        std::string k = schema ? "R(" + kind + a : article ? "A(" + (a.empty() ? "" : a.substr(1)) : "N(" + kind + a;
        while (more(70))
        {
            k += k.back() == '(' ? "" : " ";
            if (schema) { bool m = g.chance(40); k += m ? info(texts, true, 'H') : info(years, false, 'f'); continue; }
            if (!g.chance(35)) { k += info(names, true, 'n'); continue; }
            if (g.chance(40)) { tok("<year>1990</year>"); k += "T"; continue; }
            tok("<year>");
            // No edge here: a stray character would pass for the first of the year.
            if (g.chance(spacing)) s += " ";
            s += g.pick(std::vector<std::string>{"1989", "1991", "2001", "1900", "1890", "0", "29901", "10"});
            tok("</year>");
            k += "Y";
        }
        if (article && !schema) tok("</article>"); else tok("</" + kind + ">");
        return k + ")";
    }
    std::string dblp(bool schema)
    {
        std::string r = dblp_head() + "D(";
        for (bool first = true; more(90); first = false) r += (first ? "" : " ") + record(schema);
        tok("</dblp>");
        return r + ")";
    }
    std::vector<std::string> elements;
    std::string element(int d, bool top)
    {
        std::string n = word();
        if (top) tok("<"); else sure("<");
        tok(n);
        std::string r = "E(" + n + attrs();
        if (g.chance(20)) { tok("/>"); r += " b())"; }
        else
        {
            tok(">");
            std::string b = content();
            while (d > 0 && more(55)) { b += " " + element(d - 1, false); b += " " + content(); }
            sure("</"); tok(n); tok(">");
            r += " b(" + b + " " + n + "))";
        }
        elements.push_back(r);
        return r;
    }
    size_t last = 0;                        // where the last element ends
    std::vector<size_t> whole;              // what comes before is a document, too
    void comments()
    {
        while (more(25))
        {
            whole.push_back(s.size());
            tok("<!--");
            int n = g.range(1, 20);
            std::string t;
            for (int i = 0; i < n; i++) { char ch = "ab <>/&\"-"[g.below(9)]; if (ch == '-' && (t.empty() || t.back() == '-')) ch = 'c'; t += ch; }
            if (t.back() == '-') t += ' ';
            s += t + "-->";
        }
    }
    std::string xml_head()
    {
        std::string r;
        if (g.chance(60)) { tok("<?xml"); std::string a = attrs(); r = " x(" + (a.empty() ? a : a.substr(1)) + ")"; tok("?>"); }
        comments();
        if (g.chance(40))
        {
            whole.push_back(s.size());
            tok("<!DOCTYPE"); s += " ";
            std::string n = word(), v = value();
            tok(n); s += " "; tok("SYSTEM"); tok(v); tok(">");
            r += " d(" + n + " " + v + ")";
            comments();
        }
        return r;
    }
    std::string xml()
    {
        std::string r = xml_head();
        if (g.chance(95)) do { whole.push_back(s.size()); r += " " + element(4, true); } while (more(60));
        if (!elements.empty()) { last = s.size(); whole.push_back(last); ws(); }
        return r.empty() ? r : r.substr(1);
    }
};

static Context<char>& context(int k)
{
    static std::map<int, std::unique_ptr<Context<char>>> made;
    auto& c = made[k];
    if (c) return *c;
    std::string repo = getenv("VERIF_REPO") ? getenv("VERIF_REPO") : "/repo";
    c.reset(new Context<char>((repo + "/grammars/" + shipped[k].name + ".cgr").c_str()));
    for (auto& a : shipped[k].cbs) c->attach(Identifier(a.name), a.cb);
    return *c;
}
static void parse(int k, const std::string& s, int workers)
{
    kept.clear();
    roots.clear();
    tops.clear();
    results.clear();
    mkdir(ld::dir().c_str(), 0700);
    std::string p = ld::dir() + "/in";
    gr::write_file(p, s);
    current = &s;
    context(k).parse(p.c_str(), workers);
}

enum { CALC, JSON, LOTS, EAGER, DBLP, SCHEMA, XML };
static uint32_t as_number(const std::string& s) { return (uint32_t)strtoul(s.c_str(), nullptr, 10); }
// What the document means, as the callbacks put it.
static std::string write(Doc& d, int k)
{
    switch (k)
    {
    case CALC: { uint32_t v = d.expr(6); d.tok("="); return std::to_string(v); }
    case JSON: return d.object(6);
    case LOTS: case EAGER: return d.lots(k == EAGER);
    case DBLP: case SCHEMA: return d.dblp(k == SCHEMA);
    default: return d.xml();
    }
}
static std::string cut(const std::string& s) { return s.size() > 300 ? s.substr(0, 300) + "..." : s; }
static void differ(pbt::Case& c, const std::string& what, const std::string& got, const std::string& want)
{
    size_t i = 0;
    while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
    size_t from = i > 60 ? i - 60 : 0;
    c.fail(what + ": at " + std::to_string(i) + " the callbacks give " + pbt::quote(cut(got.substr(from))) + " where " + pbt::quote(cut(want.substr(from))) + " is meant");
}
static void judge(pbt::Case& c, int k, const std::string& want, std::vector<std::string> elements, const std::string& what)
{
    if (k == XML)
    {
        std::sort(elements.begin(), elements.end());
        std::sort(tops.begin(), tops.end());
        if (tops.size() != elements.size()) c.fail(what + ": " + std::to_string(tops.size()) + " elements are reduced, " + std::to_string(elements.size()) + " are there");
        for (size_t i = 0; i < tops.size(); i++) if (tops[i] != elements[i]) differ(c, what, tops[i], elements[i]);
    }
    size_t n = k == CALC ? results.size() : roots.size();
    if (n != 1) c.fail(what + ": the root is reduced " + std::to_string(n) + " times");
    if (k == CALC) { if (results[0] != as_number(want)) c.fail(what + ": evaluates to " + std::to_string(results[0]) + ", should be " + want); }
    else if (roots[0] != want) differ(c, what, roots[0], want);
}
static void documents(pbt::Case& c)
{
    pbt::Gen& g = c.g;
    int k = g.weighted({4, 5, 4, 1, 4, 3, 4});
    c.label(shipped[k].name);
    Doc d(g, g.chance(15) ? 400 : 40);
    std::string want = write(d, k);
    int workers = (g.chance(2) ? g.range(5, 10) : g.weighted({0, 4, 3, 2, 1}));
    c.show(shipped[k].name + ".cgr, " + std::to_string(workers) + " workers\n");
    if (g.chance(75))
    {
        c.show("  " + pbt::quote(d.s) + "\n");
        parse(k, d.s, workers);
        judge(c, k, want, d.elements, "the document");
    }
    else
    {
        c.label("damaged");
        size_t at = g.pick(d.edges);
        bool insert = at == 0 || g.chance(70);
        std::string s = insert ? d.s.substr(0, at) + "@" + d.s.substr(at) : d.s.substr(0, at);
        if (k == JSON && !d.closing.empty() && g.chance(40))
        {
            c.label("a closing quote escaped");
            at = g.chance(50) ? d.closing.back() : g.pick(d.closing);
            s = d.s.substr(0, at) + "\\" + d.s.substr(at);
        }
        c.show("  damaged: " + pbt::quote(s) + "\n");
        parse(k, s, workers);
        // Of xml, some beginnings are documents.
        bool sound = k == XML && !insert && std::count(d.whole.begin(), d.whole.end(), at);
        if (sound ? roots.size() != 1 : k == CALC ? !results.empty() : !roots.empty()) c.fail(sound ? "a document cut off between its parts is not reduced to its root" : "a document that is broken at " + std::to_string(at) + " is reduced to its root");
        std::sort(d.elements.begin(), d.elements.end());
        std::sort(tops.begin(), tops.end());
        if (k == XML && (tops.size() >= d.elements.size() && at < d.last || !std::includes(d.elements.begin(), d.elements.end(), tops.begin(), tops.end())))
            c.fail("elements are reduced from a document broken at " + std::to_string(at) + " which it does not have before that");
        // Then a sound one, in the same context.
        parse(k, d.s, workers);
        judge(c, k, want, d.elements, "the document after a broken one");
    }
    c.nontrivial = d.edges.size() > 10;
}
// Documents whose trees take more than one bank: a few pieces, repeated.
static void large(pbt::Case& c)
{
    pbt::Gen& g = c.g;
    int k = g.weighted({2, 4, 4, 1, 4, 3, 3});
    c.label(shipped[k].name);
    struct Piece { std::string text, means; std::vector<std::string> elements; };
    std::vector<Piece> pieces;
    int n = g.range(2, 12);
    for (int i = 0; i < n; i++)
    {
        Doc d(g, 30);
        std::string m;
        switch (k)
        {
        case CALC: m = std::to_string(d.fact(4)); break;
        case JSON: m = d.object(4); break;
        case LOTS: case EAGER: m = d.lot(k == EAGER); break;
        case DBLP: case SCHEMA: m = d.record(k == SCHEMA); break;
        default: m = d.element(4, true);
        }
        pieces.push_back(Piece{d.s, m, d.elements});
    }
    Doc head(g, 20), tail(g, 20);
    std::string s, want;
    std::vector<std::string> elements;
    size_t goal = g.range(3, 12) * 1000000ul, last = 0;
    uint32_t x = g.below(1 << 30);
    c.show(shipped[k].name + ".cgr, " + std::to_string(goal) + " characters, order " + std::to_string(x) + ", of these pieces:\n");
    for (auto& p : pieces) c.show("  " + pbt::quote(p.text) + "\n");
    auto next = [&]() -> Piece& { x = x * 1103515245 + 12345; return pieces[(x >> 12) % pieces.size()]; };
    if (k == CALC)
    {
        // Sums of sums: the grammar nests a sum as deep as it is long.
        uint32_t sum = 0;
        size_t group = 300, inner = 0;
        while (s.size() < goal / 4)
        {
            s += s.empty() ? "(" : "+(";
            for (inner = 0; inner < group; inner++) { Piece& p = next(); s += (inner ? "+" : "") + p.text; sum += as_number(p.means); }
            s += ")";
        }
        s += "=";
        want = std::to_string(sum);
    }
    else
    {
        if (k == JSON) { s = "["; want = "["; }
        else if (k == LOTS || k == EAGER) head.lots_head();
        else if (k == XML) want = head.xml_head();
        else want = head.dblp_head() + "D(";
        s += head.s;
        for (bool first = true; s.size() < goal; first = false)
        {
            Piece& p = next();
            if (!first && (k == JSON || k == LOTS || k == EAGER)) s += ",";
            if (!first && (k == JSON)) want += ",";
            if (!first && (k == DBLP || k == SCHEMA) || k == XML) want += " ";
            s += p.text;
            want += p.means;
            elements.insert(elements.end(), p.elements.begin(), p.elements.end());
            if (s.size() == last) break;
            last = s.size();
        }
        if (k == JSON) { s += "]"; want += "]"; }
        else if (k == LOTS || k == EAGER) { tail.lots_end(); s += tail.s; }
        else if (k != XML) { s += "</dblp>"; want += ")"; }
    }
    if (k == XML) want.erase(0, 1);
    int workers = g.range(1, 4);
    c.show("  " + std::to_string(workers) + " workers\n");
    parse(k, s, workers);
    judge(c, k, want, elements, "the document");
    size_t nodes = kept.size();
    c.nontrivial = nodes > 1 << 19 || k == CALC;
    if (c.nontrivial) c.label("several banks");
    kept.clear();
}
static int reg = (
    pbt::add("documents", 3000, 60000, documents, {true, 60, 60, true, 4}),
    pbt::add("large", 40, 800, large, {true, 120, 120, true, 3}), 0);
PBT_MAIN
