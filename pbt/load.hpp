// Loading generated grammars through the library.
#pragma once
#include "grammar.hpp"
#include "Grammar.hpp"
#include <sys/stat.h>

namespace ld
{
using namespace Centaurus;
inline std::string dir() { return "w" + std::to_string(getpid()); }
inline std::string file(const std::string& text, const std::string& name = "g.cgr")
{
    mkdir(dir().c_str(), 0700);
    std::string p = dir() + "/" + name;
    gr::write_file(p, text);
    return p;
}
template<typename T> void load(Grammar<T>& G, const std::string& text) { G.parse(file(text)); }
inline std::string narrow(const std::wstring& w) { std::string s; for (wchar_t c : w) s += c < 128 ? (char)c : '?'; return s; }
inline std::vector<std::pair<std::string, int>>& enum_sink() { static std::vector<std::pair<std::string, int>> v; return v; }
inline void enum_cb(const wchar_t *name, int id) { enum_sink().push_back({narrow(name), id}); }
inline std::vector<std::pair<std::string, int>> enumerate(const IGrammar& G)
{
    enum_sink().clear();
    G.enum_machines(enum_cb);
    return enum_sink();
}
// Everything the public accessors show of a grammar.
template<typename T> std::string dump(const Grammar<T>& G)
{
    std::ostringstream o;
    o << "root " << narrow(G.get_root_id().str()) << "\n";
    for (auto& e : enumerate(G))
    {
        Identifier id(rx::widen(e.first));
        o << e.second << " " << e.first << " id " << G.get_machine_id(id) << "\n";
        const auto& m = G[id];
        for (int i = 0; i < m.get_node_num(); i++)
        {
            const auto& n = m.get_node(i);
            o << "  " << i << " type " << (int)n.type() << " local " << n.get_id() << " sub " << narrow(n.get_submachine().str()) << " lit";
            for (T ch : n.get_literal()) o << " " << (unsigned long)ch;
            if (n.type() == ATNNodeType::RegularTerminal)
            {
                const auto& f = n.get_nfa();
                for (int s = 0; s < f.get_state_num(); s++)
                {
                    o << " |";
                    for (const auto& tr : f.get_transitions(s))
                    {
                        o << " ->" << tr.dest() << "[";
                        for (const auto& r : tr.label()) o << (long)r.start() << "-" << (long)r.end() << ",";
                        o << "]";
                    }
                }
            }
            o << " =>";
            for (const auto& tr : n.get_transitions()) o << " " << tr.dest() << ":" << tr.tag();
            o << "\n";
        }
    }
    return o.str();
}
// The literals, regexes and calls of a rule with their callback numbers.
template<typename T> std::multiset<std::string> items_of(const ATNMachine<T>& m)
{
    std::multiset<std::string> out;
    for (const auto& n : m)
        switch (n.type())
        {
        case ATNNodeType::LiteralTerminal: { std::string s; for (T ch : n.get_literal()) s += (char)ch; out.insert("lit " + pbt::quote(s) + " " + std::to_string(n.get_id())); break; }
        case ATNNodeType::RegularTerminal: out.insert("regex " + std::to_string(n.get_id())); break;
        case ATNNodeType::Nonterminal: out.insert("call " + narrow(n.get_invoke().str()) + " " + std::to_string(n.get_id())); break;
        default: break;
        }
    return out;
}
}
