// A small property-based testing engine: integrated shrinking over recorded choices, fork isolation,
// deterministic seeding, per-case classification, replay files.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <sstream>
#include <fstream>
#include <algorithm>
#include <iostream>
#include <exception>
#include <typeinfo>
#include <unistd.h>
#include <signal.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <time.h>
#include <fcntl.h>

namespace pbt
{
inline uint64_t mix(uint64_t x)
{
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}
inline uint64_t hash_str(const std::string& s)
{
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return mix(h);
}
inline double now()
{
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

struct Failure { std::string msg; };
struct Discard { std::string why; };

// Shared (MAP_SHARED) record of the case a worker is running, so that a crash leaves the choices behind.
struct Slot
{
    static constexpr uint32_t MAXC = 1u << 20, MAXT = 1u << 18, MAXM = 1u << 16;
    volatile uint32_t facet, active;
    volatile uint64_t index;
    volatile double start;
    volatile uint32_t nchoices, ntext, nmsg;
    volatile uint32_t failed;
    volatile uint64_t evals, discards, timeouts;
    uint32_t choices[MAXC];
    char text[MAXT];
    char msg[MAXM];
};

// The source of every random decision.  Zero is always the simplest choice.
class Gen
{
    uint64_t m_state;
    const std::vector<uint32_t> *m_replay;
    size_t m_pos;
    Slot *m_slot;
public:
    Gen(uint64_t seed, Slot *slot) : m_state(mix(seed)), m_replay(nullptr), m_pos(0), m_slot(slot) { slot->nchoices = 0; }
    Gen(const std::vector<uint32_t> *replay, Slot *slot) : m_state(0), m_replay(replay), m_pos(0), m_slot(slot) { slot->nchoices = 0; }
    uint32_t below(uint32_t n)
    {
        if (n <= 1) return 0;
        uint32_t v;
        if (m_replay)
        {
            v = m_pos < m_replay->size() ? (*m_replay)[m_pos] : 0;
            if (v >= n) v = n - 1;
        }
        else
        {
            m_state += 0x9E3779B97F4A7C15ull;
            uint64_t z = m_state;
            z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
            z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
            z ^= z >> 31;
            v = (uint32_t)(((z >> 32) * (uint64_t)n) >> 32);
        }
        m_pos++;
        if (m_slot->nchoices < Slot::MAXC) { m_slot->choices[m_slot->nchoices] = v; m_slot->nchoices = m_slot->nchoices + 1; }
        else throw Discard{"too many choices"};
        return v;
    }
    int range(int lo, int hi) { return lo + (int)below((uint32_t)(hi - lo + 1)); }   // shrinks towards lo
    bool chance(int percent) { return (int)below(100) >= 100 - percent; }              // shrinks towards false
    template<typename T> const T& pick(const std::vector<T>& v) { return v[below((uint32_t)v.size())]; }
    int weighted(const std::vector<int>& w)                                            // shrinks towards index 0
    {
        int sum = 0;
        for (int x : w) sum += x;
        int r = (int)below((uint32_t)sum);
        for (size_t i = 0; i < w.size(); i++) { if (r < w[i]) return (int)i; r -= w[i]; }
        return 0;
    }
    uint64_t bits64() { uint64_t a = below(0x10000), b = below(0x10000), c = below(0x10000), d = below(0x10000); return a | b << 16 | c << 32 | d << 48; }
};

struct Case
{
    Gen& g;
    Slot *slot;
    bool nontrivial = false;
    std::string text;
    std::vector<std::string> labels;
    std::string key;      // what makes the case distinct; the text when empty
    bool thorough = false;
    Case(Gen& g, Slot *slot) : g(g), slot(slot) { slot->ntext = 0; }
    // Describe the case; do this before running the code under test, so that a crash still has a description.
    void show(const std::string& s)
    {
        text += s;
        uint32_t n = slot->ntext;
        uint32_t k = std::min<uint32_t>((uint32_t)s.size(), Slot::MAXT - 1 - n);
        memcpy(slot->text + n, s.data(), k);
        slot->ntext = n + k;
    }
    void label(const std::string& s) { labels.push_back(s); }
    [[noreturn]] void fail(const std::string& msg) { throw Failure{msg}; }
    [[noreturn]] void discard(const std::string& why = "") { throw Discard{why}; }
    void check(bool ok, const std::string& msg) { if (!ok) fail(msg); }
};

struct Facet
{
    std::string name;
    std::function<void(Case&)> fn;
    uint64_t quick, thorough;
    bool hang_fails;       // a case that exceeds the CPU limit is a violation (otherwise inconclusive)
    int cpu_limit;         // seconds of CPU per case
    int wall_limit;        // seconds of wall time per case (for blocked cases)
    bool nondet;           // schedule dependent: a failure need not reproduce on every replay
    int max_jobs;          // 0: any
    int hang_share;        // more than this percentage of cases over the CPU limit is a violation, when they also exceed it tenfold
};
inline std::vector<Facet>& facets() { static std::vector<Facet> f; return f; }
struct FacetOpt { bool hang_fails = false; int cpu = 60; int wall = 180; bool nondet = false; int max_jobs = 0; int hang_share = 0; };
inline void add(const std::string& name, uint64_t quick, uint64_t thorough, std::function<void(Case&)> fn, FacetOpt o = FacetOpt())
{
    facets().push_back(Facet{name, fn, quick, thorough, o.hang_fails, o.cpu, o.wall, o.nondet, o.max_jobs, o.hang_share});
}
// Known findings: a literal case, run on every check.  Returns true while the defect is present.
struct Known { std::string key; std::function<bool(std::string&)> fn; };
inline std::vector<Known>& knowns() { static std::vector<Known> k; return k; }

inline std::string jstr(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char c : s)
    {
        if (c == '"') o += "\\\"";
        else if (c == '\\') o += "\\\\";
        else if (c == '\n') o += "\\n";
        else if (c == '\r') o += "\\r";
        else if (c == '\t') o += "\\t";
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o + "\"";
}
// Printable form of a byte string for case descriptions.
inline std::string quote(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\x%02x", c); o += b; }
        else o += (char)c;
    }
    return o + "\"";
}

class Runner
{
    std::string m_check, m_scratch;
    bool m_thorough;
    uint64_t m_seed;
    int m_jobs;
    double m_deadline;
    double m_scale;
    Slot *m_probe;
    std::vector<Slot *> m_slots;

    static Slot *map_slot()
    {
        void *p = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
        return (Slot *)p;
    }
    static void arm(int cpu)
    {
        itimerval tv;
        memset(&tv, 0, sizeof tv);
        tv.it_value.tv_sec = cpu;
        setitimer(ITIMER_PROF, &tv, nullptr);
    }
    static void set_msg(Slot *s, const std::string& m)
    {
        uint32_t k = std::min<uint32_t>((uint32_t)m.size(), Slot::MAXM - 1);
        memcpy(s->msg, m.data(), k);
        s->nmsg = k;
        s->failed = 1;
    }
    // Runs one case in this process. 0 ok, 1 failed, 2 discarded
    int run_case(const Facet& f, Gen& g, Slot *s, Case *&out, int cpu = 0)
    {
        static Case *last = nullptr;
        delete last;
        Case *c = last = new Case(g, s);
        c->thorough = m_thorough;
        out = c;
        s->failed = 0;
        s->nmsg = 0;
        arm(cpu ? cpu : f.cpu_limit);
        int rc = 0;
        try { f.fn(*c); }
        catch (const Failure& e) { set_msg(s, e.msg); rc = 1; }
        catch (const Discard&) { rc = 2; }
        catch (const std::exception& e) { set_msg(s, std::string("unexpected exception: ") + e.what()); rc = 1; }
        catch (...) { set_msg(s, "unexpected exception"); rc = 1; }
        arm(0);
        return rc;
    }
public:
    struct Outcome { bool failed = false, hang = false; std::string msg, text; std::vector<uint32_t> choices; };
private:
    // Runs recorded choices in a forked child.
    Outcome probe(const Facet& f, const std::vector<uint32_t>& choices, int cpu = 0)
    {
        Outcome o;
        Slot *s = m_probe;
        s->failed = 0; s->nmsg = 0; s->ntext = 0; s->nchoices = 0;
        std::string errf = m_scratch + "/probe.err";
        std::cout.flush();
        pid_t pid = fork();
        if (pid == 0)
        {
            setpgid(0, 0);
            int fd = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
            dup2(fd, 2);
            Gen g(&choices, s);
            Case *c;
            int rc = run_case(f, g, s, c, cpu);
            _exit(rc == 1 ? 10 : rc == 2 ? 12 : 0);
        }
        setpgid(pid, pid);
        int st = 0;
        double t0 = now();
        useconds_t nap = 200;
        bool killed = false;
        while (true)
        {
            pid_t r = waitpid(pid, &st, WNOHANG);
            if (r == pid) break;
            if (now() - t0 > f.wall_limit) { kill(pid, SIGKILL); waitpid(pid, &st, 0); killed = true; break; }
            usleep(nap);
            if (nap < 5000) nap *= 2;
        }
        kill(-pid, SIGKILL);
        o.text.assign(s->text, s->ntext);
        o.choices.assign(s->choices, s->choices + s->nchoices);
        if (killed || (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF))
        {
            o.hang = true;
            o.failed = f.hang_fails;
            o.msg = "did not terminate within the time limit";
        }
        else if (WIFSIGNALED(st)) { o.failed = true; o.msg = std::string("crashed: ") + strsignal(WTERMSIG(st)); }
        else if (WEXITSTATUS(st) == 10) { o.failed = true; o.msg.assign(s->msg, s->nmsg); }
        else if (WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 12)
        {
            o.failed = true;
            o.msg = "process died with exit status " + std::to_string(WEXITSTATUS(st));
        }
        if (o.failed && o.msg.compare(0, 7, "crashed") * o.msg.compare(0, 7, "process") == 0)
        {
            std::ifstream in(errf);
            std::string line;
            int n = 0;
            while (std::getline(in, line) && n < 12)
                if (line.find("ERROR") != std::string::npos || line.find("runtime error") != std::string::npos || line.find("/src/") != std::string::npos || line.find("terminate") != std::string::npos)
                { o.msg += "\n  " + line; n++; }
        }
        return o;
    }
    Outcome shrink(const Facet& f, Outcome best, double budget)
    {
        double end = now() + budget;
        int tries = 0;
        auto attempt = [&](const std::vector<uint32_t>& c) -> bool
        {
            if (now() > end || tries > 4000) return false;
            tries++;
            Outcome o = probe(f, c, std::min(f.cpu_limit, best.hang ? 2 : 3));
            if (!o.failed || o.hang != best.hang) return false;
            // Accept only a simplification: fewer choices, or lexicographically smaller.
            if (o.choices.size() > best.choices.size()) return false;
            if (o.choices.size() == best.choices.size() && !(o.choices < best.choices)) return false;
            best = o;
            return true;
        };
        bool progress = true;
        while (progress && now() < end && tries <= 4000)
        {
            progress = false;
            for (size_t len = std::max<size_t>(1, best.choices.size() / 2); len >= 1; len /= 2)
            {
                for (size_t i = 0; i + len <= best.choices.size();)
                {
                    std::vector<uint32_t> c = best.choices;
                    c.erase(c.begin() + i, c.begin() + i + len);
                    if (attempt(c)) progress = true; else i += len;
                }
                if (len == 1) break;
            }
            for (size_t len = 8; len >= 1; len /= 2)
                for (size_t i = 0; i + len <= best.choices.size(); i++)
                {
                    bool any = false;
                    std::vector<uint32_t> c = best.choices;
                    for (size_t k = 0; k < len; k++) { any |= c[i + k] != 0; c[i + k] = 0; }
                    if (any && attempt(c)) progress = true;
                }
            for (size_t i = 0; i < best.choices.size(); i++)
            {
                // Lower single choices: binary search, then by one, also lowering a count while dropping what follows.
                uint32_t lo = 0;
                while (i < best.choices.size() && lo < best.choices[i])
                {
                    std::vector<uint32_t> c = best.choices;
                    uint32_t mid = lo + (c[i] - lo) / 2;
                    c[i] = mid;
                    if (attempt(c)) progress = true; else lo = mid + 1;
                }
                for (size_t k = 1; k <= 6 && i < best.choices.size() && best.choices[i] > 0; k++)
                {
                    std::vector<uint32_t> c = best.choices;
                    c[i]--;
                    if (i + 1 + k > c.size()) break;
                    c.erase(c.begin() + i + 1, c.begin() + i + 1 + k);
                    if (attempt(c)) { progress = true; k = 0; }
                }
            }
        }
        return best;
    }
    struct Stats { uint64_t evals = 0, discards = 0, timeouts = 0, nontrivial = 0; std::map<std::string, uint64_t> labels; std::unordered_set<uint64_t> distinct; std::vector<std::string> samples; };

    uint64_t case_seed(const Facet& f, uint64_t i) { return mix(mix(m_seed) ^ hash_str(f.name)) + mix(i * 2 + 1); }

    void worker(const Facet& f, uint32_t fi, int w, int jobs, uint64_t from, uint64_t count, Slot *s, const std::string& statf, double stop_at)
    {
        Stats st;
        double last_dump = now();
        size_t nsamples = 0;
        std::ofstream out(statf, std::ios::binary | std::ios::app);
        for (uint64_t i = from; i < count; i += jobs)
        {
            if (now() > stop_at) break;
            s->facet = fi;
            s->index = i;
            s->start = now();
            s->active = 1;
            Gen g(case_seed(f, i), s);
            Case *c;
            int rc = run_case(f, g, s, c);
            if (rc == 1) { dump(out, st); out.flush(); _exit(10); }
            s->active = 0;
            // Stats go out regularly, so that a case over the limit loses little.
            if (now() - last_dump > 0.02) { dump(out, st); out.flush(); nsamples += st.samples.size(); st = Stats(); last_dump = now(); }
            if (rc == 2) { st.discards++; st.labels["discarded"]++; continue; }
            st.evals++;
            for (auto& l : c->labels) st.labels[l]++;
            if (c->nontrivial)
            {
                st.nontrivial++;
                const std::string& k = c->key.empty() ? c->text : c->key;
                bool fresh = st.distinct.insert(hash_str(k)).second;
                if (fresh && nsamples + st.samples.size() < 4 && i >= (uint64_t)((nsamples + st.samples.size()) * (count / 5))) st.samples.push_back(c->text.substr(0, 600));
            }
        }
        dump(out, st);
        out.flush();
        _exit(0);
    }
    static void dump(std::ofstream& out, const Stats& st)
    {
        out << "E " << st.evals << " " << st.discards << "\n";
        for (auto& l : st.labels) out << "L " << l.second << " " << l.first << "\n";
        for (auto h : st.distinct) out << "H " << h << "\n";
        for (auto& x : st.samples) out << "S " << jstr(x) << "\n";
    }
    bool run_facet(uint32_t fi, std::ostream& js, bool& first_js)
    {
        const Facet& f = facets()[fi];
        uint64_t count = m_thorough ? f.thorough : f.quick;
        count = (uint64_t)(count * m_scale);
        if (count == 0) return true;
        int jobs = m_jobs;
        if (f.max_jobs && jobs > f.max_jobs) jobs = f.max_jobs;
        double t0 = now();
        std::vector<pid_t> pids(jobs, -1);
        std::vector<std::string> statf(jobs), errf(jobs);
        std::vector<uint64_t> resume(jobs);
        uint64_t timeouts = 0;
        std::vector<Outcome> hung;
        bool failed = false;
        uint64_t fail_index = 0;
        Outcome fail;
        auto spawn = [&](int w)
        {
            m_slots[w]->index = resume[w];
            pid_t p = fork();
            if (p == 0)
            {
                setpgid(0, 0);
                int fd = open(errf[w].c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
                dup2(fd, 2);
                int nul = open("/dev/null", O_WRONLY);
                dup2(nul, 1);
                worker(f, fi, w, jobs, resume[w], count, m_slots[w], statf[w], m_deadline);
            }
            setpgid(p, p);
            pids[w] = p;
        };
        std::cout.flush();
        for (int w = 0; w < jobs; w++)
        {
            statf[w] = m_scratch + "/stat." + std::to_string(fi) + "." + std::to_string(w);
            errf[w] = m_scratch + "/err." + std::to_string(w);
            m_slots[w]->active = 0;
            resume[w] = w;
            spawn(w);
        }
        bool violation = false, flaky = false, note = false;
        int flakes = 0, wrong = 0;
        Outcome kept;
        int live = jobs;
        while (true)
        {
        while (live > 0)
        {
            bool moved = false;
            for (int w = 0; w < jobs; w++)
            {
                if (pids[w] < 0) continue;
                int st;
                Slot *s = m_slots[w];
                bool timed_out = false;
                pid_t r = waitpid(pids[w], &st, WNOHANG);
                if (r == 0)
                {
                    if (s->active && now() - s->start > f.wall_limit) { kill(pids[w], SIGKILL); waitpid(pids[w], &st, 0); timed_out = true; }
                    else continue;
                }
                moved = true;
                kill(-pids[w], SIGKILL);
                pids[w] = -1;
                live--;
                if (!timed_out && WIFEXITED(st) && WEXITSTATUS(st) == 0) { resume[w] = count; continue; }
                if (!timed_out && WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF) timed_out = true;
                if (timed_out && !f.hang_fails)
                {
                    timeouts++;
                    if (hung.size() < 200)
                    {
                        Outcome h;
                        h.text.assign(s->text, s->ntext);
                        h.choices.assign(s->choices, s->choices + s->nchoices);
                        h.msg = "does not terminate (like many cases of this kind)";
                        hung.push_back(h);
                    }
                    if (getenv("PBT_SHOW_TIMEOUTS")) std::cerr << "--- over the limit\n" << std::string(s->text, s->ntext) << std::endl;
                    resume[w] = s->index + jobs;
                    if (resume[w] < count && timeouts < (f.hang_share ? 100 : 50)) { s->active = 0; spawn(w); live++; }
                    continue;
                }
                resume[w] = s->index + jobs;
                Outcome o;
                o.failed = true;
                o.hang = timed_out;
                o.text.assign(s->text, s->ntext);
                o.choices.assign(s->choices, s->choices + s->nchoices);
                if (s->nmsg) o.msg.assign(s->msg, s->nmsg);
                else if (timed_out) o.msg = "did not terminate within the time limit";
                else o.msg = "crashed";
                if (!failed || s->index < fail_index) { fail = o; fail_index = s->index; }
                if (!failed)
                {
                    failed = true;
                    // Give the other workers a moment to finish lower-numbered cases, then stop them.
                    for (int v = 0; v < jobs; v++) if (pids[v] > 0) { kill(-pids[v], SIGKILL); kill(pids[v], SIGKILL); waitpid(pids[v], &st, 0); pids[v] = -1; live--; resume[v] = std::max(resume[v], (uint64_t)m_slots[v]->index); }
                }
            }
            if (!moved) usleep(3000);
        }
            if (!failed) break;
            // Confirm, shrink, confirm again.
            int again = 0, need = f.nondet || fail.hang ? 1 : 3, rounds = f.nondet ? 20 : need;
            Outcome rep = fail;
            double from = now();
            for (int k = 0; k < rounds && (k < 2 || now() - from < (fail.hang ? 60 : 120)); k++) { Outcome o = probe(f, fail.choices); if (o.failed) { again++; rep = o; if (f.nondet) break; } else if (!f.nondet) break; }
            if (again >= need)
            {
                Outcome small = f.nondet ? rep : shrink(f, rep, 60);
                if (!f.nondet)
                {
                    int ok = 0;
                    for (int k = 0; k < need; k++) if (probe(f, small.choices).failed) ok++;
                    if (ok < need) small = rep;
                }
                violation = true;
                fail = small;
                break;
            }
            // One that depends on timing is looked for further; wrong results seen twice are no accident.
            flakes++;
            if (!fail.hang && ++wrong > 1 && f.nondet) { violation = true; break; }
            if (!f.nondet || flakes > 2 || now() > m_deadline) { flaky = true; break; }
            note = true;
            kept = fail;
            failed = false;
            for (int w = 0; w < jobs; w++) if (resume[w] < count) { m_slots[w]->active = 0; spawn(w); live++; }
        }
        if (!failed && note) { failed = flaky = true; fail = kept; }
        Stats tot;
        for (int w = 0; w < jobs; w++)
        {
            std::ifstream in(statf[w], std::ios::binary);
            std::string line;
            while (std::getline(in, line))
            {
                if (line.size() < 2) continue;
                std::istringstream is(line.substr(2));
                if (line[0] == 'E') { uint64_t e, d; is >> e >> d; tot.evals += e; tot.discards += d; }
                else if (line[0] == 'L') { uint64_t n; is >> n; std::string l; std::getline(is, l); tot.labels[l.substr(l.empty() ? 0 : 1)] += n; }
                else if (line[0] == 'H') { uint64_t h; is >> h; tot.distinct.insert(h); }
                else if (line[0] == 'S' && tot.samples.size() < 6) tot.samples.push_back(line.substr(2));
            }
            unlink(statf[w].c_str());
        }
        std::string replay_path;
        if (!failed && f.hang_share && timeouts >= 20 && timeouts * 100 > (tot.evals + timeouts) * f.hang_share)
        {
            std::sort(hung.begin(), hung.end(), [](const Outcome& a, const Outcome& b) { return a.choices.size() < b.choices.size(); });
            int still = 0;
            for (int k = 0; k < 3; k++) if (probe(f, hung[k].choices, std::min(60, f.cpu_limit * 10)).hang) still++;
            if (still == 3)
            {
                violation = failed = true;
                fail = hung[0];
                replay_path = m_scratch + "/" + f.name + ".replay";
                write_replay(replay_path, f, fail);
            }
        }
        else
        if (failed)
        {
            replay_path = m_scratch + "/" + f.name + (flaky ? ".flaky" : ".replay");
            write_replay(replay_path, f, fail);
        }
        js << (first_js ? "" : ",\n") << "{\"facet\":" << jstr(f.name) << ",\"requested\":" << count << ",\"evaluations\":" << tot.evals << ",\"discarded\":" << tot.discards
           << ",\"timeouts\":" << timeouts << ",\"distinct_nontrivial\":" << tot.distinct.size() << ",\"wall_s\":" << (now() - t0) << ",\"labels\":{";
        bool c = false;
        for (auto& l : tot.labels) { js << (c ? "," : "") << jstr(l.first) << ":" << l.second; c = true; }
        js << "},\"samples\":[";
        c = false;
        for (auto& x : tot.samples) { js << (c ? "," : "") << x; c = true; }
        js << "],\"violation\":" << (violation ? "true" : "false") << ",\"flaky\":" << (flaky ? "true" : "false");
        if (failed) js << ",\"replay\":" << jstr(replay_path) << ",\"message\":" << jstr(fail.msg) << ",\"case\":" << jstr(fail.text);
        js << "}";
        first_js = false;
        return !violation;
    }
    static void write_replay(const std::string& path, const Facet& f, const Outcome& o)
    {
        std::ofstream r(path);
        r << "facet " << f.name << "\nchoices";
        for (uint32_t x : o.choices) r << " " << x;
        r << "\n--- failure\n" << o.msg << "\n--- case\n" << o.text << "\n";
    }
    int replay(const std::string& path)
    {
        std::ifstream in(path);
        std::string w, name, line;
        in >> w >> name >> w;
        std::getline(in, line);
        std::istringstream is(line);
        std::vector<uint32_t> ch;
        uint32_t x;
        while (is >> x) ch.push_back(x);
        for (auto& f : facets())
            if (f.name == name)
            {
                int n = f.nondet ? 20 : 1;
                for (int k = 0; k < n; k++)
                {
                    Outcome o = probe(f, ch);
                    if (k == 0 || o.failed) std::cout << o.text << std::endl;
                    if (o.hang && f.hang_share) o.failed = true;
                    if (o.failed) { std::cout << "FAILED: " << o.msg << std::endl; return 1; }
                }
                std::cout << "passed" << std::endl;
                return 0;
            }
        std::cerr << "no such facet " << name << std::endl;
        return 3;
    }
public:
    int main(int argc, char **argv)
    {
        std::string out, replay_file, only;
        m_seed = 1; m_thorough = false; m_jobs = 8; m_scale = 1;
        double budget = 600;
        for (int i = 1; i < argc; i++)
        {
            std::string a = argv[i];
            auto next = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
            if (a == "--seed") m_seed = strtoull(next().c_str(), nullptr, 10);
            else if (a == "--thorough") m_thorough = true;
            else if (a == "--jobs") m_jobs = atoi(next().c_str());
            else if (a == "--out") out = next();
            else if (a == "--scratch") m_scratch = next();
            else if (a == "--budget") budget = atof(next().c_str());
            else if (a == "--scale") m_scale = atof(next().c_str());
            else if (a == "--only") only = next();
            else if (a == "--replay") replay_file = next();
        }
        if (m_scratch.empty()) m_scratch = ".";
        m_probe = map_slot();
        for (int i = 0; i < m_jobs; i++) m_slots.push_back(map_slot());
        if (!replay_file.empty()) return replay(replay_file);
        m_deadline = now() + budget;
        std::ostringstream js;
        js << "{\"facets\":[";
        bool first = true, ok = true;
        for (uint32_t i = 0; i < facets().size(); i++)
        {
            if (!only.empty() && facets()[i].name != only) continue;
            if (!run_facet(i, js, first)) { ok = false; break; }
        }
        js << "],\n\"known\":[";
        first = true;
        for (auto& k : knowns())
        {
            m_probe->nmsg = 0;
            pid_t pid = fork();
            if (pid == 0)
            {
                int nul = open("/dev/null", O_WRONLY);
                dup2(nul, 1); dup2(nul, 2);
                arm(30);
                std::string msg;
                bool present = false;
                try { present = k.fn(msg); } catch (const std::exception& e) { present = true; msg = e.what(); } catch (...) { present = true; }
                set_msg(m_probe, msg);
                _exit(present ? 1 : 0);
            }
            int st;
            waitpid(pid, &st, 0);
            bool present = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
            js << (first ? "" : ",") << "{\"key\":" << jstr(k.key) << ",\"present\":" << (present ? "true" : "false") << "}";
            first = false;
        }
        js << "]}\n";
        if (out.empty()) std::cout << js.str();
        else { std::ofstream o(out); o << js.str(); }
        return ok ? 0 : 1;
    }
};
}
#define PBT_MAIN int main(int argc, char **argv) { pbt::Runner r; return r.main(argc, argv); }
