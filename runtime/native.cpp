// Native back end of the contract intrinsics: replays counterexample tapes of the prover,
// or runs the harnesses on random inputs, against the real code with sanitizers on.
#include "vf.hpp"
#include <algorithm>
#include <csetjmp>
#include <cxxabi.h>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace {
    struct entry { char const *name; void (*fn)(); };
    std::vector<entry> &table() { static std::vector<entry> t; return t; }
    struct shared {
        volatile std::uint64_t iterations, assumed_away;
        volatile int ntape;
        struct { char name[40]; unsigned w; std::uint64_t v; } tape[4096];
        char fail[400];
        char entry[160];
    };
    shared *sh;
    bool replay = false;
    std::vector<std::uint64_t> in;
    std::size_t pos = 0;
    std::uint64_t rs = 88172645463325252ull;
    std::uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 2685821657736338717ull; }
    std::vector<std::uint64_t> recent;
    std::map<std::pair<std::string, std::uint64_t>, std::uint64_t> uf;
    std::map<std::string, int> flags;
    sigjmp_buf out;
    bool stopped = false;

    std::uint64_t gen(unsigned w) {
        std::uint64_t x;
        switch (rnd() % 10) {
            case 0: x = rnd() % 3; break;
            case 1: case 2: x = rnd() % 9; break;
            case 3: x = ~0ull - rnd() % 5; break;
            case 4: x = (1ull << (rnd() % 64)) + (rnd() % 3) - 1; break;
            case 5: x = (1ull << (w - 1)) + (rnd() % 5) - 2; break;
            case 6: case 7: if (!recent.empty()) { x = recent[rnd() % recent.size()] + (rnd() % 3 == 0 ? rnd() % 5 - 2 : 0); break; } [[fallthrough]];
            case 8: x = rnd() % 64; break;
            default: x = rnd() >> (rnd() % 64);
        }
        if (w < 64) x &= (1ull << w) - 1;
        recent.push_back(x);
        return x;
    }
    std::uint64_t next(char const *n, unsigned w, std::uint64_t (*g)(unsigned, std::uint64_t, std::uint64_t), std::uint64_t a = 0, std::uint64_t b = 0) {
        std::uint64_t v;
        if (replay) v = pos < in.size() ? in[pos++] : 0;
        else v = g(w, a, b);
        if (w < 64) v &= (1ull << w) - 1;
        int const k = sh->ntape;
        if (k < 4096) {
            std::strncpy(sh->tape[k].name, n, 39);
            sh->tape[k].w = w; sh->tape[k].v = v;
            sh->ntape = k + 1;
        }
        return v;
    }
    std::uint64_t g_any(unsigned w, std::uint64_t, std::uint64_t) { return gen(w); }
    std::uint64_t g_range(unsigned, std::uint64_t lo, std::uint64_t hi) {
        if (hi - lo == ~0ull) return gen(64);
        if (rnd() % 4) return lo + rnd() % (hi - lo + 1);
        auto x = gen(64);
        return x < lo || x > hi ? (rnd() % 2 ? lo : hi) : x;
    }
    std::uint64_t g_choose(unsigned, std::uint64_t n, std::uint64_t) { return rnd() % n; }
}
vf::harness_reg::harness_reg(char const *name, void (*fn)()) { table().push_back({name, fn}); }

extern "C" {
std::uint8_t vf_any_u8(char const *n) { return (std::uint8_t) next(n, 8, g_any); }
std::uint16_t vf_any_u16(char const *n) { return (std::uint16_t) next(n, 16, g_any); }
std::uint32_t vf_any_u32(char const *n) { return (std::uint32_t) next(n, 32, g_any); }
std::uint64_t vf_any_u64(char const *n) { return next(n, 64, g_any); }
bool vf_any_bool(char const *n) { return next(n, 1, [](unsigned, std::uint64_t, std::uint64_t) { return rnd() & 1; }); }
std::uint64_t vf_any_range(char const *n, std::uint64_t lo, std::uint64_t hi) {
    auto v = next(n, 64, g_range, lo, hi);
    if (v < lo || v > hi) vf_assume(false);
    return v;
}
int vf_choose(char const *n, int k) { auto v = next(n, 32, g_choose, (std::uint64_t) k); return (int) (v % (unsigned) k); }
void vf_index(std::uint64_t) {}
void vf_value(std::uint64_t) {}
void vf_fact(bool) {}
void vf_candidate(bool (*)()) {}
void vf_function(std::uint64_t (*)(std::uint64_t)) {}
void vf_forget() {}
void vf_range(std::uint64_t, std::uint64_t, std::uint64_t, bool) {}
void vf_atomic_hooks(void (*)(void *), void (*)(void *, std::uint64_t, std::uint64_t)) {}
void vf_share_heap() {}
void vf_lemma_div(std::uint64_t, std::uint64_t) {}
void vf_lemma_distrib(std::uint64_t, std::uint64_t, std::uint64_t) {}
void vf_lemma_mul(std::uint64_t, std::uint64_t, std::uint64_t) {}
void vf_cycle() {}
void vf_end_path() { siglongjmp(out, 1); }
void vf_assume(bool b) { if (!b) { sh->assumed_away = sh->assumed_away + 1; siglongjmp(out, 1); } }
void vf_assert(bool b, char const *n) {
    if (b) return;
    std::snprintf(sh->fail, sizeof sh->fail, "ensures: %s", n);
    std::fflush(nullptr);
    _exit(77);
}
void vf_cover(char const *) {}
std::uint64_t vf_uf(char const *tag, std::uint64_t x) {
    auto v = next(tag, 64, g_any);
    return uf.emplace(std::pair{std::string{tag}, x}, v).first->second;
}
bool vf_symbolic_run() { return false; }
int vf_flag_get(char const *n) { return flags[n]; }
void vf_flag_set(char const *n, int v) { flags[n] = v; }
std::uint64_t vf_live_allocs() { return 0; }
// the number of exceptions in flight, as the exception runtime (Itanium C++ ABI) counts it
static int in_flight_base;
static unsigned &in_flight() { struct globals { void *caught; unsigned uncaught; }; return reinterpret_cast<globals *>(abi::__cxa_get_globals())->uncaught; }
void vf_uncaught_base(int b) { in_flight() += static_cast<unsigned>(b) - static_cast<unsigned>(in_flight_base); in_flight_base = b; }
bool vf_decide(bool b) { return b; }
}

static void on_signal(int s) {
    if (!sh->fail[0]) {
        char const *why = s == SIGALRM ? "termination: no progress for 20 s" : s == SIGABRT ? "abort (assertion, std::terminate or sanitizer)" : "fatal signal";
        std::snprintf(sh->fail, sizeof sh->fail, "%s", why);
    }
    _exit(78);
}
static void run_one(void (*fn)()) {
    in_flight() = 0; in_flight_base = 0;
    sh->ntape = 0; pos = 0; recent.clear(); uf.clear(); flags.clear();
    if (sigsetjmp(out, 0) == 0) {
        try { fn(); }
        catch (...) { vf_assert(false, "no exception escapes the harness"); }
    }
    sh->iterations = sh->iterations + 1;
}
static void print_fail(FILE *f) {
    std::fprintf(f, "{\"entry\": \"%s\", \"reason\": \"", sh->entry);
    for (char const *p = sh->fail; *p; ++p) if (*p == '"' || *p == '\\') std::fprintf(f, "\\%c", *p); else std::fputc(*p, f);
    std::fprintf(f, "\", \"tape\": [");
    for (int i = 0; i < sh->ntape; ++i) std::fprintf(f, "%s[\"%s\",%u,\"%llu\"]", i ? "," : "", sh->tape[i].name, sh->tape[i].w, (unsigned long long) sh->tape[i].v);
    std::fprintf(f, "]}\n");
    std::fflush(f);
}
int main(int argc, char **argv) {
    // usage: PROG list | PROG replay ENTRY v1 v2 ... | PROG random SECONDS SEED [ENTRY]
    if (argc < 2) return 2;
    if (!std::strcmp(argv[1], "list")) { for (auto &e : table()) std::printf("%s\n", e.name); return 0; }
    sh = static_cast<shared *>(mmap(nullptr, sizeof(shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    replay = !std::strcmp(argv[1], "replay");
    std::vector<entry> run;
    double secs = 0;
    std::uint64_t seed = 1;
    if (replay) {
        for (auto &e : table()) if (!std::strcmp(e.name, argv[2])) run.push_back(e);
        for (int i = 3; i < argc; ++i) in.push_back(std::strtoull(argv[i], nullptr, 10));
    } else {
        secs = std::atof(argv[2]);
        seed = std::strtoull(argv[3], nullptr, 10);
        for (auto &e : table()) if (argc < 5 || !std::strcmp(e.name, argv[4])) run.push_back(e);
    }
    if (run.empty()) { std::fprintf(stderr, "no such entry\n"); return 2; }
    bool failed = false;
    std::uint64_t total = 0, away = 0;
    for (auto &e : run) {
        std::memset((void *) sh, 0, sizeof *sh);
        std::snprintf(sh->entry, sizeof sh->entry, "%s", e.name);
        pid_t const pid = fork();
        if (pid == 0) {
            for (int s : {SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGALRM, SIGTRAP}) { if (s == SIGSEGV) continue; std::signal(s, on_signal); }
            rs = 88172645463325252ull ^ (seed * 0x9E3779B97F4A7C15ull);
            for (char const *p = e.name; *p; ++p) rs = rs * 31 + (unsigned char) *p;
            if (!rs) rs = 1;
            if (replay) { alarm(20); run_one(e.fn); std::fflush(nullptr); _exit(0); }
            timespec t0, t1;
            clock_gettime(CLOCK_MONOTONIC, &t0);
            double const budget = secs / (double) run.size();
            do {
                alarm(20);
                for (int k = 0; k < 16; ++k) run_one(e.fn);
                clock_gettime(CLOCK_MONOTONIC, &t1);
            } while ((double) (t1.tv_sec - t0.tv_sec) + 1e-9 * (double) (t1.tv_nsec - t0.tv_nsec) < budget);
            std::fflush(nullptr);
            _exit(0);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        total += sh->iterations; away += sh->assumed_away;
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
            if (!sh->fail[0]) std::snprintf(sh->fail, sizeof sh->fail, WIFSIGNALED(st) ? "killed by signal %d" : "sanitizer report, exit %d", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
            std::printf("FAIL ");
            print_fail(stdout);
            failed = true;
        }
    }
    std::printf("RAN %llu iterations, %llu outside the precondition\n", (unsigned long long) total, (unsigned long long) away);
    return failed ? 1 : 0;
}
