// main for the bounded oracle: picks trials, runs them, reports the first failure.
//   oracle --ops=a,b --aspects=VALUE,CANON --seed=N --trials=N --time=S [--only=T] [--special=3,4,5] [--alias] [--bad]
#include "ref.hpp"
#include <csignal>
#include <unistd.h>
#include <chrono>
using namespace rf;
static char cur[256];
static void onsig(int s) { char b[400]; int n = snprintf(b, sizeof b, "CRASH signal %d in %s\n", s, cur); (void)!write(1, b, n); _exit(3); }
extern "C" void __asan_on_error() { char b[400]; int n = snprintf(b, sizeof b, "CRASH sanitizer in %s\n", cur); (void)!write(1, b, n); }
int main(int argc, char **argv) {
    std::set<std::string> ops; std::set<int> asp; u64 seed = 1, trials = 1000000000, only = ~0ull; double tmax = 5; std::vector<Ix> special; int badmode = 0;
    const char *an[] = {"VALUE", "CANON", "INPUT", "THROW", "SAFETY"};
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i]; auto val = [&](const char *p) -> const char * { size_t n = strlen(p); return a.compare(0, n, p) == 0 ? argv[i] + n : nullptr; };
        if (auto v = val("--ops=")) { std::stringstream s(v); std::string x; while (std::getline(s, x, ',')) ops.insert(x); }
        else if (auto v = val("--aspects=")) { std::stringstream s(v); std::string x; while (std::getline(s, x, ',')) for (int j = 0; j < 5; ++j) if (x == an[j]) asp.insert(j); }
        else if (auto v = val("--seed=")) seed = strtoull(v, 0, 10);
        else if (auto v = val("--trials=")) trials = strtoull(v, 0, 10);
        else if (auto v = val("--only=")) only = strtoull(v, 0, 10);
        else if (auto v = val("--time=")) tmax = atof(v);
        else if (auto v = val("--special=")) { std::stringstream s(v); std::string x; while (std::getline(s, x, ',')) special.push_back(strtoull(x.c_str(), 0, 10)); }
        else if (a == "--bad") badmode = 1; else if (a == "--list") { for (auto &t : registry()) printf("%s %s\n", t.name.c_str(), t.group.c_str()); return 0; }
    }
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) signal(s, onsig);
    std::vector<Trial> sel; for (auto &t : registry()) if (ops.empty() || ops.count(t.name)) sel.push_back(t);
    if (sel.empty()) { printf("no operations\n"); return 2; }
    auto t0 = std::chrono::steady_clock::now(); std::set<u64> distinct; u64 n = 0, nt = 0; std::vector<std::string> samples;
    for (u64 t = only == ~0ull ? 0 : only; t < trials; ++t) {
        if ((t & 63) == 0 && only == ~0ull && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > tmax) break;
        Trial &tr = sel[t % sel.size()];
        Ctx c(mix(seed, t) ^ 0x5bd1e995); c.special = special; c.bad = badmode == 1;
        snprintf(cur, sizeof cur, "trial %llu op %s", (unsigned long long)t, tr.name.c_str());
        tr.f(c); ++n;
        if (c.nontrivial) { ++nt; distinct.insert(mix(std::hash<std::string>()(c.log.str()), c.shape_key)); if (samples.size() < 6 && t % 997 == 5) samples.push_back(c.log.str()); }
        for (auto &f : c.fails) if (asp.empty() || asp.count(f.a)) {
            printf("FAIL aspect=%s trial=%llu op=%s\n%s%s\n", an[f.a], (unsigned long long)t, tr.name.c_str(), c.log.str().c_str(), f.msg.c_str()); return 1; }
        if (only != ~0ull) { printf("trial passes\n%s", c.log.str().c_str()); break; }
    }
    printf("OK evaluations=%llu nontrivial=%llu distinct=%zu\n", (unsigned long long)n, (unsigned long long)nt, distinct.size());
    for (auto &s : samples) { std::string x = s; for (auto &ch : x) if (ch == '\n') ch = ';'; printf("SAMPLE %s\n", x.substr(0, 400).c_str()); }
    return 0;
}
