// Running built programs.
#pragma once
#include "pbt.hpp"
#include <sys/prctl.h>

inline std::string env_path(const char *name)
{
    // VERIF_EXES is a flat JSON object of strings.
    std::string j = getenv("VERIF_EXES") ? getenv("VERIF_EXES") : "", k = "\"" + std::string(name) + "\": \"";
    size_t p = j.find(k);
    if (p == std::string::npos) { fprintf(stderr, "no %s\n", name); abort(); }
    p += k.size();
    return j.substr(p, j.find('"', p) - p);
}
inline std::string slurp(const std::string& p)
{
    std::ifstream f(p, std::ios::binary);
    return std::string(std::istreambuf_iterator<char>(f), {});
}
struct Ran { int status = -1; bool hung = false; std::string out, err; };
// Runs a program with its output going to files of the working directory, or standard output to the path given.
inline Ran run_program(const std::string& exe, const std::vector<std::string>& args, const std::string& to = "", int cpu = 10, bool limit_memory = true)
{
    std::string base = "p" + std::to_string(getpid()), out = to.empty() ? base + ".out" : to, err = base + ".err";
    pid_t pid = fork();
    if (!pid)
    {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        int i = open("/dev/null", O_RDONLY), o = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), e = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        dup2(i, 0);
        dup2(o, 1);
        dup2(e, 2);
        for (int fd = 3; fd < 64; fd++) close(fd);
        for (int s = 1; s < 32; s++) signal(s, SIG_DFL);
        itimerval z = {};
        setitimer(ITIMER_REAL, &z, nullptr);
        rlimit rl = {(rlim_t)cpu, (rlim_t)cpu + 1};
        setrlimit(RLIMIT_CPU, &rl);
        rlimit core = {0, 0};
        setrlimit(RLIMIT_CORE, &core);
        if (limit_memory) { rlimit as = {(rlim_t)2 << 30, (rlim_t)2 << 30}; setrlimit(RLIMIT_AS, &as); }
        setenv("LC_ALL", "C", 1);
        setenv("ASAN_OPTIONS", "exitcode=99:detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=1024:hard_rss_limit_mb=3000", 1);
        setenv("UBSAN_OPTIONS", "halt_on_error=1:exitcode=99", 1);
        std::vector<char *> a = {(char *)exe.c_str()};
        for (auto& x : args) a.push_back((char *)x.c_str());
        a.push_back(nullptr);
        execv(exe.c_str(), a.data());
        _exit(127);
    }
    Ran r;
    waitpid(pid, &r.status, 0);
    r.hung = WIFSIGNALED(r.status) && (WTERMSIG(r.status) == SIGXCPU || WTERMSIG(r.status) == SIGKILL);
    if (to.empty()) r.out = slurp(out);
    r.err = slurp(err);
    unlink(err.c_str());
    if (to.empty()) unlink(out.c_str());
    return r;
}
