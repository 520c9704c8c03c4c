// C27: DICE_SANDBOX. One run follows one side of the fork. The operating system is a set of contracts (below): fork returns
// in the parent, in the child or fails, waitpid is interrupted any number of times, fails or reports any way a process can
// end. Natively the same contracts stand in for the system calls, nothing is forked, no signal handler is changed.
//@ trusted: contracts of fork, waitpid, _exit, sigprocmask, sigaction, sigemptyset, fflush, ostream::flush, std::terminate
//@ assume: the wait loop is entered in the same state after every interruption (checked: the paths that are ended are in a state seen before)
#include "vf.hpp"
#include <errno.h>
#include <signal.h>
#include <stdio.h>
#include <sys/wait.h>
#include <unistd.h>
#include <functional>
#include <iostream>
#include <stdexcept>
#include <streambuf>
#include <system_error>
#include <utility>
#include <dice/template-library/type_traits.hpp>

namespace os {
    enum side_t { before, parent, child };
    struct child_exit { int code; };
    constexpr int pid = 4711;
    inline side_t side; inline bool forks, fork_done, reaped, exited, func_threw;
    inline int forked, func_calls, fork_errno, wait_errno, wait_status, exit_code, K;
    inline bool dirty_cout, dirty_cerr, dirty_stdio, dirty_file; // output was buffered since the last flush
    inline bool blocked, handled; inline std::uint64_t errno_v; inline int the_errno;
    inline void set_errno(int e) {
#ifdef VF_NATIVE
        errno = e;
#else
        the_errno = e;
#endif
    }
    inline pid_t do_fork() {
        vf_assert(forked == 0, "one child is forked");
        ++forked;
        vf_assert(!dirty_cout && !dirty_cerr && !dirty_stdio && !dirty_file, "what was buffered before is flushed before the child inherits it");
        vf_assert(func_calls == 0, "the function runs only in the child");
        if (!forks) { set_errno(fork_errno); return -1; }
        if (side == child) return 0;
        return pid;
    }
    inline pid_t do_waitpid(pid_t p, int *st, int options) {
        vf_assert(side == parent && forked == 1 && !reaped && p == pid, "the parent waits for its child, until that has ended");
        vf_assert(options == 0, "the parent waits until the child has ended");
#ifndef VF_NATIVE
        vf_cycle();
#endif
        int const k = vf_choose("waitpid", 3);
        if (k == 0) { set_errno(EINTR); return -1; }
        if (k == 1) { vf_assume(wait_errno != 0); reaped = true; set_errno(wait_errno); return -1; }
        wait_errno = 0; reaped = true;
        if (st) *st = wait_status;
        return p;
    }
    inline void do_exit(int code) {
        vf_assert(side == child && forked == 1 && func_calls == 1, "only the child exits, after the function");
        vf_assert(!func_threw, "a function that throws aborts");
        vf_assert(code == exit_code, "the exit code is the function's result");
        vf_assert(!dirty_cout && !dirty_cerr && !dirty_stdio && !dirty_file, "the function's output is flushed before the child exits");
        exited = true;
    }
    inline bool has(sigset_t const *s) {
#ifdef VF_NATIVE
        return sigismember(s, K) == 1;
#else
        return (s->__val[(K - 1) / 64] >> ((K - 1) % 64)) & 1;
#endif
    }
    inline int do_sigprocmask(int how, sigset_t const *s, sigset_t *) {
        vf_assert(side == child && forked == 1, "signal handling is changed in the child only");
        if (s) {
            if (how == SIG_SETMASK) blocked = has(s);
            else if (how == SIG_BLOCK) blocked = blocked || has(s);
            else if (how == SIG_UNBLOCK) blocked = blocked && !has(s);
        }
        return 0;
    }
    inline int do_sigaction(int sig, struct sigaction const *sa, struct sigaction *) {
        vf_assert(side == child && forked == 1, "signal handling is changed in the child only");
        if (sig < 1 || sig > 64 || sig == SIGKILL || sig == SIGSTOP || sig == 32 || sig == 33) { set_errno(EINVAL); return -1; }
        if (sa && sig == K) handled = !(sa->sa_handler == SIG_DFL && !(sa->sa_flags & SA_SIGINFO));
        return 0;
    }
    inline int do_fflush(FILE *f) { if (f == nullptr || f == stdout) dirty_stdio = false; if (f == nullptr) dirty_file = false; return 0; }
    template<typename R> R run_func() {
        vf_assert(side == child && forked == 1, "the function runs only in the child");
        vf_assert(!blocked, "no signal is blocked when the function runs");
        vf_assert(!handled, "every signal has its default handler when the function runs");
        ++func_calls;
        dirty_cout = vf_any_bool("writes to cout"); dirty_cerr = vf_any_bool("writes to cerr"); dirty_stdio = vf_any_bool("writes to stdio"); dirty_file = vf_any_bool("writes to another stream");
        if (vf_symbolic_run() && vf_any_bool("func throws")) { func_threw = true; throw vf::injected{7}; }
        if constexpr (!std::is_void_v<R>) { exit_code = (int) vf::any<std::uint32_t>("result"); return exit_code; }
        else exit_code = 0;
    }
}
#ifdef VF_NATIVE
pid_t ghost_fork() { return os::do_fork(); }
pid_t ghost_waitpid(pid_t p, int *s, int o) { return os::do_waitpid(p, s, o); }
[[noreturn]] void ghost_exit(int c) { os::do_exit(c); throw os::child_exit{c}; }
int ghost_sigprocmask(int h, sigset_t const *s, sigset_t *o) { return os::do_sigprocmask(h, s, o); }
int ghost_sigaction(int g, struct sigaction const *s, struct sigaction *o) { return os::do_sigaction(g, s, o); }
int ghost_fflush(FILE *f) { return os::do_fflush(f); }
#define fork() ghost_fork()
#define waitpid(A, B, C) ghost_waitpid(A, B, C)
#define _exit(C) ghost_exit(C)
#define sigprocmask(A, B, C) ghost_sigprocmask(A, B, C)
#define sigaction(A, B, C) ghost_sigaction(A, B, C)
#define fflush(F) ghost_fflush(F)
sighandler_t ghost_signal(int g, sighandler_t h) { struct sigaction sa{}; sa.sa_handler = h; sa.sa_flags = SA_RESTART; os::do_sigaction(g, &sa, nullptr); return SIG_DFL; }
#define signal(A, B) ghost_signal(A, B)
#else
#define STUB extern "C" __attribute__((used))
STUB pid_t vfs_fork() { return os::do_fork(); }
STUB pid_t vfs_waitpid(pid_t p, int *s, int o) { return os::do_waitpid(p, s, o); }
STUB void vfs__exit(int c) { os::do_exit(c); throw os::child_exit{c}; }
STUB int vfs_sigprocmask(int h, sigset_t const *s, sigset_t *o) { return os::do_sigprocmask(h, s, o); }
STUB int vfs_pthread_sigmask(int h, sigset_t const *s, sigset_t *o) { return os::do_sigprocmask(h, s, o); }
STUB int vfs_sigaction(int g, struct sigaction const *s, struct sigaction *o) { return os::do_sigaction(g, s, o); }
STUB int vfs_sigemptyset(sigset_t *s) { for (auto &w : s->__val) w = 0; return 0; }
STUB int vfs_sigfillset(sigset_t *s) { for (auto &w : s->__val) w = ~0ul; return 0; }
STUB int vfs_fflush(FILE *f) { return os::do_fflush(f); }
STUB int *vfs___errno_location() { return &os::the_errno; }
STUB std::ostream &vfs__ZNSo5flushEv(std::ostream &s) { if (&s == &std::cout) os::dirty_cout = false; if (&s == &std::cerr) os::dirty_cerr = false; return s; }
STUB std::ostream &vfs__ZNSolsEPFRSoS_E(std::ostream &s, std::ostream &(*f)(std::ostream &)) { return f(s); }
STUB std::ostream &vfs__ZSt5flushIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_(std::ostream &s) { return vfs__ZNSo5flushEv(s); }
STUB int vfs_fflush_unlocked(FILE *f) { return os::do_fflush(f); }
STUB sighandler_t vfs_signal(int g, sighandler_t h) { struct sigaction sa; for (auto &w : sa.sa_mask.__val) w = 0; sa.sa_handler = h; sa.sa_flags = SA_RESTART; os::do_sigaction(g, &sa, nullptr); return SIG_DFL; }
STUB void vfs__ZSt9terminatev() { vf_assert(os::side == os::child && os::func_threw, "only a function that throws aborts its process"); vf_end_path(); }
STUB void vfs___clang_call_terminate(void *) { vfs__ZSt9terminatev(); }
STUB void vfs_exit(int) { vf_assert(false, "the child does not run the parent's exit handlers"); vf_end_path(); }
namespace { struct cat_impl : std::error_category { char const *name() const noexcept override { return "system"; } std::string message(int) const override { return {}; } }; }
alignas(8) static char cat_mem[sizeof(cat_impl)];
STUB std::error_category const &vfs__ZNSt3_V215system_categoryEv() { return reinterpret_cast<std::error_category &>(cat_mem); }
STUB void vfs__ZNSt12system_errorC1ESt10error_codePKc(void *, int, std::error_category const *, char const *) {}
#endif
#include <dice/template-library/sandbox.hpp>
namespace dtl = dice::template_library;
namespace {
#ifdef VF_NATIVE
    struct counting : std::streambuf { bool *flag; explicit counting(bool *f) : flag{f} {} int sync() override { *flag = false; return 0; } int overflow(int c) override { return c; } };
#endif
    // natively the streams report their flushes; put back afterwards
    struct streams {
#ifdef VF_NATIVE
        counting a{&os::dirty_cout}, b{&os::dirty_cerr}; std::streambuf *oa, *ob;
        streams() { oa = std::cout.rdbuf(&a); ob = std::cerr.rdbuf(&b); }
        ~streams() { std::cout.rdbuf(oa); std::cerr.rdbuf(ob); }
#endif
    };
    void reset() {
        vf::reset();
#ifndef VF_NATIVE
        new (cat_mem) cat_impl;
#endif
        os::side = vf_any_bool("child") ? os::child : os::parent;
        os::forks = os::side == os::child || vf_any_bool("fork succeeds");
        os::reaped = os::exited = os::func_threw = false; os::forked = os::func_calls = os::exit_code = 0;
        os::fork_errno = (int) vf_any_range("fork errno", 1, 133);
        os::wait_errno = (int) vf_any_range("wait errno", 1, 133); vf_assume(os::wait_errno != EINTR);
        bool const ex = vf_any_bool("child exits");
        os::wait_status = ex ? (int) vf_any_u8("exit code") << 8 : ((int) vf_any_range("signal", 1, 126) | (vf_any_bool("core") ? 0x80 : 0));
        os::dirty_cout = vf_any_bool("cout"); os::dirty_cerr = vf_any_bool("cerr"); os::dirty_stdio = vf_any_bool("stdio"); os::dirty_file = vf_any_bool("another stream");
        os::K = (int) vf_any_range("signal looked at", 1, 64);
        os::blocked = vf_any_bool("blocked");
        // KILL and STOP always have their default handler, 32 and 33 are the C library's
        os::handled = os::K != SIGKILL && os::K != SIGSTOP && os::K != 32 && os::K != 33 && vf_any_bool("handled");
    }
    template<typename F> void run(F sandboxed) {
        reset();
        streams st;
        int how = 0, code = 0;                                  // 0: returned, 1: system_error, 2: child left
        dtl::SubProcessResult r{};
        try { r = sandboxed(); }
        catch (os::child_exit const &) { how = 2; }
        catch (std::system_error const &e) {
            how = 1;
            (void) e;
#ifdef VF_NATIVE
            code = e.code().value(); vf_assert(e.code().category() == std::system_category(), "system errors are reported as such");
#else
            code = e.code().value(); vf_assert(&e.code().category() == reinterpret_cast<std::error_category *>(cat_mem), "system errors are reported as such");
#endif
        }
        vf_assert(os::forked == 1, "a child is forked");
        if (!os::forks) { vf_assert(how == 1 && code == os::fork_errno, "a failing fork throws system_error with its error number"); return; }
        if (os::side == os::child) { vf_assert(how == 2 && os::exited && os::func_calls == 1, "the child runs the function once and never returns"); return; }
        vf_assert(os::func_calls == 0, "the function runs only in the child");
        vf_assert(os::reaped, "the parent waits until the child has ended");
        if (os::wait_errno != 0) { vf_assert(how == 1 && code == os::wait_errno, "a failing wait throws system_error with its error number"); return; }
        vf_assert(how == 0, "otherwise the parent gets a result");
        int const s = os::wait_status;
        if ((s & 0x7f) == 0) vf_assert((r == dtl::SubProcessResult::ExitSuccess) == (s >> 8 == 0) && (r == dtl::SubProcessResult::ExitFailure) == (s >> 8 != 0), "success is reported iff the exit code is 0, failure for any other exit code");
        else vf_assert((int) r == (s & 0x7f), "a child ended by a signal is reported as that signal");
        vf_cover((s & 0x7f) == 0 ? "exit" : "signal");
    }
    struct move_only { move_only() = default; move_only(move_only &&) = default; int operator()() { return os::run_func<int>(); } };
    struct rvalue_only { int operator()() && { return os::run_func<int>(); } };
}
VF_HARNESS(int_function) { run([] { return DICE_SANDBOX { return os::run_func<int>(); }; }); }
VF_HARNESS(void_function) { run([] { return DICE_SANDBOX { os::run_func<void>(); }; }); }
VF_HARNESS(captures) {
    std::uint64_t const x = vf_any_u64("x");
    run([x] { std::uint64_t y = x; return DICE_SANDBOX { vf_assert(y == x, "the function sees what it refers to"); return os::run_func<int>(); }; });
}
VF_HARNESS(move_only_function) { run([] { return dtl::detail_sandbox::SandBox{} + move_only{}; }); }
VF_HARNESS(function_pointer) { run([] { int (*f)() = &os::run_func<int>; return dtl::detail_sandbox::SandBox{} + f; }); }
VF_HARNESS(values) {
    vf::reset();
    using R = dtl::SubProcessResult;
    vf_assert((int) R::Interrupted == SIGINT && (int) R::IllegalInstruction == SIGILL && (int) R::Aborted == SIGABRT && (int) R::FloatingPointException == SIGFPE && (int) R::SegmentationFault == SIGSEGV && (int) R::Terminated == SIGTERM, "the named signals are the system's");
    vf_assert((int) R::ExitSuccess < 0 && (int) R::ExitFailure < 0 && R::ExitSuccess != R::ExitFailure, "exits are no signals");
}
