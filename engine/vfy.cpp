#include <unistd.h>
#include "vfy.hpp"
#include <algorithm>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>

using namespace llvm;
namespace vfy {
z3::context *Z = nullptr;

static z3::expr bvval(u128 c, unsigned w) {
    if (w <= 64) return Z->bv_val((uint64_t) (c & maskw(w)), w);
    // wide: concat
    z3::expr hi = Z->bv_val((uint64_t) (c >> 64), w - 64), lo = Z->bv_val((uint64_t) c, 64);
    return z3::concat(hi, lo);
}
V V::mk(unsigned w, z3::expr const &e0) {
    V v; v.w = w;
    if (w == 1) {
        z3::expr e = e0;
        if (e.is_true()) return V::con(1, 1);
        if (e.is_false()) return V::con(1, 0);
        v.sym = true; v.e = e; return v;
    }
    if (e0.is_numeral()) {
        if (w <= 64) return V::con(w, e0.get_numeral_uint64());
        std::string s = e0.get_decimal_string(0);
        u128 x = 0; for (char ch : s) x = x * 10 + (unsigned) (ch - '0');
        return V::con(w, x);
    }
    v.sym = true; v.e = e0; return v;
}
z3::expr V::ex() const {
    if (sym) return e;
    if (w == 1) return Z->bool_val(c != 0);
    return bvval(c, w);
}
z3::expr V::bv() const {
    if (w == 1) { if (!sym) return Z->bv_val((uint64_t) (c & 1), 1); return z3::ite(e, Z->bv_val(1, 1), Z->bv_val(0, 1)); }
    return ex();
}
static V simp(V const &v) { return v.sym ? V::mk(v.w, v.e.simplify()) : v; }

static std::string jesc(std::string const &s) {
    std::string o;
    for (char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
        else if ((unsigned char) ch < 0x20) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
        else o += ch;
    }
    return o;
}

constexpr unsigned IDSHIFT = 44;
constexpr u64 BASEOFF = 0x10000;
static u64 baseOf(u32 id) { return ((u64) id << IDSHIFT) + BASEOFF; }

struct Unsupported { std::string why; };
struct PathEnd { std::string why; };

struct FnInfo {
    std::unordered_map<Value const *, int> slot;
    int n = 0;
    std::unique_ptr<DominatorTree> dt;
    std::unique_ptr<LoopInfo> li;
    std::string dem;
    std::string file;
};

struct Options {
    u64 stepLimit = 3000000, pathLimit = 2000000;
    double timeLimit = 300;
    unsigned queryMs = 20000;
    bool inductive = true;
    unsigned cutAfter = 2;
    bool verbose = false;
    unsigned maxTapes = 3;
    unsigned loopBound = 0;      // when not inductive: kill a path after this many symbolic revisits (0 = none)
};

struct Engine {
    Module &M;
    DataLayout const &DL;
    Options opt;
    z3::solver solver;
    std::vector<Z3_ast> sstack;
    std::vector<z3::expr> sstackKeep;
    std::unordered_map<Function const *, std::unique_ptr<FnInfo>> fns;
    std::unordered_map<GlobalValue const *, u32> gid;
    std::map<std::string, u32> extGlob;
    std::vector<Function *> fnByIdx;
    std::unordered_map<Function const *, u64> fnAddr;
    std::map<u64, Function *> addrFn;
    std::map<u64, std::string> tiName;
    u32 nextId = 16;
    u64 frameUid = 1;
    u64 fresh = 0;
    std::vector<State> *work = nullptr;
    // statistics
    u64 nPaths = 0, nQueries = 0, nSteps = 0, nCuts = 0, nInfeasible = 0, nUnknownBranch = 0;
    double solverTime = 0, maxQuery = 0;
    std::map<std::string, Obl> obls;
    std::map<std::string, u64> covers;
    std::set<std::string> coverNames;
    std::set<std::string> unsupported;
    std::map<std::string, std::set<std::string>> funcs; // file -> functions executed from the repo
    std::set<Function const *> seenFn;
    std::map<std::string, u64> builtins;
    std::vector<std::string> pathEnds;
    std::map<std::string, u64> endReasons;
    std::chrono::steady_clock::time_point t0;
    bool timedOut = false;
    bool quiet = false;              // nested exploration: do not record obligations
    std::function<bool(State &)> onBlock; // returns true to stop the path
    std::vector<std::string> invReport;

    Engine(Module &m, Options o) : M(m), DL(m.getDataLayout()), opt(o), solver(*Z) {
        t0 = std::chrono::steady_clock::now();
        z3::params p(*Z);
        p.set("timeout", opt.queryMs);
        solver.set(p);
        u64 a = ((u64) 8 << IDSHIFT) + BASEOFF;
        for (auto &f : M) { fnAddr[&f] = a; addrFn[a] = &f; a += 16; }
    }
    double elapsed() const { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }

    // -------------------------------------------------------------- helpers
    FnInfo &info(Function *f) {
        auto &p = fns[f];
        if (!p) {
            p = std::make_unique<FnInfo>();
            for (auto &a : f->args()) p->slot[&a] = p->n++;
            for (auto &bb : *f) for (auto &i : bb) if (!i.getType()->isVoidTy()) p->slot[&i] = p->n++;
            p->dem = llvm::demangle(f->getName().str());
            if (auto *sp = f->getSubprogram()) {
                p->file = (sp->getDirectory() + "/" + sp->getFilename()).str();
                if (sp->getFilename().starts_with("/")) p->file = sp->getFilename().str();
            }
        }
        return *p;
    }
    LoopInfo &loops(Function *f) {
        auto &i = info(f);
        if (!i.li) { i.dt = std::make_unique<DominatorTree>(*f); i.li = std::make_unique<LoopInfo>(*i.dt); }
        return *i.li;
    }
    z3::expr freshBV(std::string const &n, unsigned w) {
        std::string nm = n + "!" + std::to_string(fresh++);
        if (w == 1) return Z->bool_const(nm.c_str());
        return Z->bv_const(nm.c_str(), w);
    }
    V freshV(std::string const &n, unsigned w) { V v; v.w = w; v.sym = true; v.e = freshBV(n, w); return v; }
    unsigned bits(Type *t) const {
        if (t->isPointerTy()) return 64;
        if (t->isIntegerTy()) return t->getIntegerBitWidth();
        if (t->isFloatTy()) return 32;
        if (t->isDoubleTy()) return 64;
        throw Unsupported{"type width"};
    }
    std::string locOf(Instruction const *i) {
        if (!i) return "?";
        if (auto dl = i->getDebugLoc()) {
            auto *sc = dl->getFile();
            return (sc ? sc->getFilename().str() : std::string("?")) + ":" + std::to_string(dl.getLine());
        }
        return "?";
    }

    // -------------------------------------------------------------- solver
    void sync(State &s) {
        size_t k = 0;
        while (k < sstack.size() && k < s.pc.size() && sstack[k] == (Z3_ast) s.pc[k]) ++k;
        if (sstack.size() > k) {
            solver.pop(sstack.size() - k);
            sstack.resize(k); sstackKeep.erase(sstackKeep.begin() + k, sstackKeep.end());
        }
        for (; k < s.pc.size(); ++k) { solver.push(); solver.add(s.pc[k]); sstack.push_back((Z3_ast) s.pc[k]); sstackKeep.push_back(s.pc[k]); }
    }
    // 1: contains uninterpreted functions, 2: contains arrays
    std::unordered_map<unsigned, std::pair<unsigned, z3::expr>> kindMemo;
    std::unique_ptr<z3::tactic> satTactic;
    // A product of two unknowns is an opaque constant with facts about it; the product itself is only
    // brought in when those facts do not decide a query. Operands: x = sign * core.
    std::map<std::tuple<unsigned, unsigned>, std::array<z3::expr, 3>> products;
    V product(State &s, V const &a, V const &b) {
        unsigned w = a.w;
        z3::expr x = a.e.simplify(), y = b.e.simplify();
        bool neg = false;
        auto strip = [&](z3::expr &t) {
            if (t.is_app() && t.decl().decl_kind() == Z3_OP_BNEG) { t = t.arg(0); neg = !neg; }
            else if (t.is_app() && t.decl().decl_kind() == Z3_OP_BMUL && t.num_args() == 2 && t.arg(0).is_numeral() && (t.arg(0) == Z->bv_val(-1, w)).simplify().is_true()) { t = t.arg(1); neg = !neg; }
        };
        strip(x); strip(y);
        if (x.id() > y.id()) std::swap(x, y);
        auto key = std::make_tuple(x.id(), y.id());
        auto it = products.find(key);
        if (it == products.end()) it = products.emplace(key, std::array<z3::expr, 3>{freshV("product", w).e, x, y}).first;
        z3::expr p = it->second[0];
        bool known = false;
        for (auto &d : s.prods) known |= d[0].id() == p.id();
        if (!known) {
            s.prods.push_back(it->second);
            if (s.model && !modelSays2(s, p == x * y)) s.model.reset();
            z3::expr z = bvval(0, w), one = bvval(1, w);
            add(s, z3::implies(x == z || y == z, p == z));
            add(s, z3::implies(x == one, p == y));
            add(s, z3::implies(y == one, p == x));
            // exact product of half-width numbers: bounded, its low half is the product of the halves
            unsigned h = w / 2;
            if (w % 2 == 0 && h >= 8) {
                z3::expr hx = x.extract(w - 1, h).simplify(), hy = y.extract(w - 1, h).simplify();
                auto isz = [&](z3::expr const &t) { return (t == bvval(0, h)).simplify().is_true(); };
                if (isz(hx) && isz(hy)) {
                    z3::expr m = z3::zext(bvval((u128) -1, h), h);
                    add(s, z3::ule(p, (m * m).simplify()));
                    add(s, z3::implies(x != z && y != z, z3::ule(x, p) && z3::ule(y, p)));
                    V lo = product2(s, V::mk(h, x.extract(h - 1, 0).simplify()), V::mk(h, y.extract(h - 1, 0).simplify()));
                    add(s, p.extract(h - 1, 0) == lo.ex());
                }
            }
        }
        return V::mk(w, neg ? (-p).simplify() : p);
    }
    // i*m apart dividends have i apart quotients; and k*m - 1 has quotient k - 1
    void applyDivHint(State &s, std::pair<z3::expr, z3::expr> const &h, size_t at, std::vector<std::array<z3::expr, 4>> const &ds) {
        z3::expr i = h.first, m = h.second;
        auto wide = [](z3::expr const &x) { return z3::zext(x, 64); };
        V im = product2(s, V::mk(128, wide(i).simplify()), V::mk(128, wide(m).simplify()));
        auto &p = ds[at];
        if (p[0].get_sort().bv_size() != 64) return;
        add(s, z3::implies(p[3] == m && i != 0 && wide(p[2]) + 1 == im.ex(), p[0] == i - 1 && p[1] == m - 1));
        for (size_t o = 0; o < at; ++o) {
            auto &q = ds[o];
            if (q[0].get_sort().bv_size() != 64) continue;
            for (int sw = 0; sw < 2; ++sw) {
                auto &x = sw ? q : p; auto &y = sw ? p : q;
                add(s, z3::implies(x[3] == m && y[3] == m && z3::uge(x[2], y[2]) && wide(x[2] - y[2]) == im.ex(), x[0] == y[0] + i && x[1] == y[1]));
            }
        }
    }
    V product2(State &s, V const &a, V const &b) {
        if (a.sym && b.sym) return product(s, a, b);
        return V::mk(a.w, (a.ex() * b.ex()).simplify());
    }
    bool modelSays2(State &s, z3::expr const &c) { bool v; return modelSays(s, c, v) && v; }
    // the second back end: bit-vectors as integers. 0: unsat, 1: sat, -1: no answer
    int cvc5(z3::solver &q, unsigned ms, bool ints) {
        ++nCvc5;
        char name[] = "/tmp/vfyXXXXXX";
        int fd = mkstemp(name);
        if (fd < 0) return -1;
        std::string text = q.to_smt2();
        size_t w = 0;
        while (w < text.size()) { ssize_t k = write(fd, text.data() + w, text.size() - w); if (k <= 0) break; w += (size_t) k; }
        close(fd);
        std::string cmd = std::string("cvc5 --lang=smt2 --force-logic=ALL ") + (ints ? "--solve-bv-as-int=sum " : "") + "--tlimit=" + std::to_string(ms) + " " + name + " 2>/dev/null";
        int res = -1;
        if (FILE *f = popen(cmd.c_str(), "r")) {
            char buf[64] = {};
            if (fgets(buf, sizeof buf, f)) res = strncmp(buf, "unsat", 5) == 0 ? 0 : strncmp(buf, "sat", 3) == 0 ? 1 : -1;
            pclose(f);
        }
        unlink(name);
        if (res == 0) ++nCvc5Unsat;
        return res;
    }
    unsigned nCvc5 = 0, nCvc5Unsat = 0;
    // the query with the products in
    int checkProducts(State &s, z3::expr const &extra, std::shared_ptr<z3::model> *out, z3::model m) {
        auto T = [](char const *n) { return z3::tactic(*Z, n); };
        if (!satTactic) satTactic = std::make_unique<z3::tactic>(T("simplify") & T("propagate-values") & T("solve-eqs") & T("ackermannize_bv") & T("simplify") & T("smt"));
        std::vector<z3::expr> full = s.pc; full.push_back(extra);
        for (auto &d : s.prods) full.push_back(d[0] == d[1] * d[2]);
        auto make = [&](unsigned ms) { z3::solver q = satTactic->mk_solver(); z3::params p(*Z); p.set("timeout", ms); q.set(p); for (auto &c : full) q.add(c); return q; };
        auto holds = [&](z3::model &m) { for (auto &c : full) if (!m.eval(c, true).is_true()) return false; return true; };
        try {
            if (holds(m)) { if (out) *out = std::make_shared<z3::model>(m); return 1; }
            // a real model: fix the factor most products share
            std::map<unsigned, std::pair<unsigned, z3::expr>> factors;
            std::function<void(z3::expr const &)> leaf = [&](z3::expr const &x) {
                if (x.is_numeral() || !x.is_bv()) return;
                if (x.num_args() == 0) { factors.emplace(x.id(), std::make_pair(0u, x)).first->second.first++; return; }
                for (unsigned j = 0; j < x.num_args(); ++j) leaf(x.arg(j));
            };
            for (auto &d : s.prods) { leaf(d[1]); leaf(d[2]); }
            std::vector<std::pair<unsigned, z3::expr>> best;
            for (auto &[id, f] : factors) best.push_back(f);
            std::stable_sort(best.begin(), best.end(), [](auto &a, auto &b) { return a.first > b.first; });
            if (best.size() > 2) best.erase(best.begin() + 2, best.end());
            for (auto &[n, x] : best) {
                unsigned w = x.get_sort().bv_size();
                for (z3::expr v : {m.eval(x, true), Z->bv_val(1, w), Z->bv_val(3, w), Z->bv_val(-1, w)}) {
                    z3::solver q2 = make(std::min<unsigned>(2000, opt.queryMs));
                    q2.add(x == v);
                    if (q2.check() == z3::sat) {
                        z3::model m2 = q2.get_model();
                        if (holds(m2)) { if (out) *out = std::make_shared<z3::model>(m2); return 1; }
                    }
                }
            }
            z3::solver q3 = make(opt.queryMs);
            if (cvc5(q3, 3000, true) == 0) return 0;
            auto r = q3.check();
            if (r == z3::unsat) return 0;
            if (r == z3::sat) { z3::model m3 = q3.get_model(); if (holds(m3)) { if (out) *out = std::make_shared<z3::model>(m3); return 1; } }
        } catch (z3::exception &) {}
        return -1;
    }
    unsigned kindOf(z3::expr const &e) {
        auto it = kindMemo.find(e.id());
        if (it != kindMemo.end()) return it->second.first;
        unsigned k = 0;
        if (e.is_app()) {
            if (e.decl().decl_kind() == Z3_OP_UNINTERPRETED && e.num_args() > 0) k |= 1;
            if (e.is_array()) k |= 2;
            for (unsigned i = 0; i < e.num_args(); ++i) k |= kindOf(e.arg(i));
        } else k |= 2;
        kindMemo.emplace(e.id(), std::make_pair(k, e));
        return k;
    }
    // bit-vectors and uninterpreted functions only: equations solved, Ackermannised, bit-blasted
    unsigned queryKind = 0;
    bool bvQuery(State &s, unsigned k) {
        for (auto &c : s.pc) k |= kindOf(c);
        queryKind = k;
        return !(k & 2) && ((k & 1) || s.flags["inductive"]);
    }
    // sat: 1, unsat: 0, unknown: -1
    int check(State &s, z3::expr const &extra, std::shared_ptr<z3::model> *out = nullptr) {
        auto b = std::chrono::steady_clock::now();
        ++nQueries;
        auto done = [&](int r) { double d = std::chrono::duration<double>(std::chrono::steady_clock::now() - b).count(); if (opt.verbose && d > 0.5) std::cerr << "    slow query " << d << " s -> " << r << " pc " << s.pc.size() << "\n"; solverTime += d; maxQuery = std::max(maxQuery, d); return r; };
        bool const bvOnly = bvQuery(s, kindOf(extra));
        if (bvOnly || !s.prods.empty()) {
            auto T = [](char const *n) { return z3::tactic(*Z, n); };
            if (!satTactic) satTactic = std::make_unique<z3::tactic>(T("simplify") & T("propagate-values") & T("solve-eqs") & T("ackermannize_bv") & T("simplify") & T("smt"));
            try {
                z3::solver q = satTactic->mk_solver();
                z3::params p(*Z);
                p.set("timeout", std::min<unsigned>(s.prods.empty() ? 400 : 1000, opt.queryMs));
                q.set(p);
                for (auto &c : s.pc) q.add(c);
                q.add(extra);
                if (auto *dd = getenv("VFY_DUMP")) { std::ofstream o(std::string(dd) + "/q" + std::to_string(nQueries) + ".smt2"); o << q.to_smt2(); }
                auto r = q.check();
                if (r == z3::unknown && s.prods.empty()) { // another strategy, then another solver, then longer
                    if (cvc5(q, 2000, true) == 0) return done(0);
                    z3::solver d(*Z, "QF_UFBV");
                    z3::params dp(*Z);
                    dp.set("timeout", std::min<unsigned>(3000, opt.queryMs));
                    d.set(dp);
                    for (auto &c : s.pc) d.add(c);
                    d.add(extra);
                    r = d.check();
                    if (r == z3::sat && out) *out = std::make_shared<z3::model>(d.get_model());
                    if (r != z3::unknown) return done(r == z3::sat);
                }
                if (r == z3::unknown) {
                    if (cvc5(q, 10000, !s.prods.empty()) == 0) return done(0);
                    p.set("timeout", opt.queryMs);
                    q.set(p);
                    r = q.check();
                }
                if (r == z3::sat && !s.prods.empty()) return done(checkProducts(s, extra, out, q.get_model()));
                if (r != z3::unknown) {
                    if (r == z3::sat && out) *out = std::make_shared<z3::model>(q.get_model());
                    return done(r == z3::sat);
                }
            } catch (z3::exception &) {}
            if (!s.prods.empty()) return done(-1);
        }
        sync(s);
        solver.push();
        solver.add(extra);
        auto r = solver.check();
        int res = r == z3::sat ? 1 : r == z3::unsat ? 0 : -1;
        if (res == 1 && out) *out = std::make_shared<z3::model>(solver.get_model());
        solver.pop();
        return done(res);
    }
    z3::expr meval(z3::model &m, z3::expr const &e) { return m.eval(e, true); }
    bool modelSays(State &s, z3::expr const &c, bool &val) {
        if (!s.model) return false;
        z3::expr r = meval(*s.model, c);
        if (r.is_true()) { val = true; return true; }
        if (r.is_false()) { val = false; return true; }
        return false;
    }
    // adds constraint known to be feasible
    std::map<std::string, std::array<z3::expr, 4>> divs;
    static unsigned Z_get_id(z3::expr const &x) { return Z3_get_ast_id(x.ctx(), x); }
    void add(State &s, z3::expr const &c) {
        if (c.is_true()) return;
        if (s.model) { bool v; if (!modelSays(s, c, v) || !v) s.model.reset(); }
        s.pc.push_back(c);
    }
    bool ensureModel(State &s) {
        if (s.model) return true;
        std::shared_ptr<z3::model> m;
        int r = check(s, Z->bool_val(true), &m);
        if (r == 1) { s.model = m; return true; }
        return false;
    }
    // decides which outcomes of c are feasible
    void feas(State &s, z3::expr const &c, bool &t, bool &f) {
        bool v; bool known = modelSays(s, c, v);
        std::shared_ptr<z3::model> m;
        if (known && v) t = true; else { int r = check(s, c, &m); t = r != 0; if (r < 0) ++nUnknownBranch; if (r == 1 && !s.model) s.model = m; }
        if (known && !v) f = true;
        else if (!t) f = true;
        else { int r = check(s, !c); f = r != 0; if (r < 0) ++nUnknownBranch; }
        if (!t && !f) f = true;
    }
    // resolves a boolean value by forking; returns the chosen value for this state
    bool decide(State &s, V const &cv) {
        if (!cv.sym) return cv.c != 0;
        V c = simp(cv);
        if (!c.sym) return c.c != 0;
        bool t = false, f = false;
        feas(s, c.e, t, f);
        if (t && f) {
            State o = s; // re-executes the current instruction with the negation assumed
            o.forks++; s.forks++;
            add(o, !c.e);
            work->push_back(std::move(o));
            add(s, c.e);
            return true;
        }
        if (t) { return true; }
        return false;
    }

    // -------------------------------------------------------------- obligations
    std::string tapeJson(State &s, z3::model &m) {
        std::ostringstream o; o << "[";
        bool first = true;
        for (auto &t : s.tape) {
            u128 val = t.v.c;
            if (t.v.sym) {
                z3::expr r = meval(m, t.v.e);
                if (t.w == 1 && r.is_bool()) val = r.is_true();
                else if (r.is_numeral()) val = t.w <= 64 ? r.get_numeral_uint64() : 0;
            }
            if (!first) o << ",";
            first = false;
            o << "[\"" << jesc(t.name) << "\"," << t.w << ",\"" << (u64) val << "\"]";
        }
        o << "]";
        return o.str();
    }
    std::vector<std::string> backtrace(State &s) {
        std::vector<std::string> r;
        for (auto it = s.fr.rbegin(); it != s.fr.rend() && r.size() < 12; ++it) {
            if (!it->fn) continue;
            Instruction *i = it->pc != it->bb->end() ? &*it->pc : nullptr;
            r.push_back(info(it->fn).dem.substr(0, 140) + " @ " + locOf(i));
        }
        return r;
    }
    Obl &obl(std::string const &kind, std::string const &name, Instruction const *i) {
        std::string loc = locOf(i), fn = i ? info(const_cast<Function *>(i->getFunction())).dem : "";
        std::string key = kind + "|" + name + "|" + loc + "|" + (kind == "ensures" ? "" : fn);
        auto &o = obls[key];
        if (o.name.empty()) { o.name = name; o.kind = kind; o.loc = loc; o.func = fn; }
        return o;
    }
    z3::expr lastNeg{*Z};
    void refute(State &s, Obl &o, std::shared_ptr<z3::model> m) {
        o.refuted++;
        if (s.abstracted) o.abstracted = true;
        if (o.tapes.size() < opt.maxTapes && m) {
            // prefer small lengths: the counterexample is replayed natively
            z3::expr small = Z->bool_val(true); bool any = false; int left = 6;
            z3::expr fal = lastNeg;
            for (auto &t : s.tape) if (t.v.sym && t.name.rfind("len", 0) == 0 && left-- > 0) {
                z3::expr c = small && z3::ule(t.v.e, Z->bv_val(left > 3 ? 12 : 40, t.w));
                std::shared_ptr<z3::model> m2;
                if (check(s, c && fal, &m2) == 1) { small = c; m = m2; any = true; }
            }
            (void) any;
            o.tapes.push_back(tapeJson(s, *m));
            if (o.trace.empty()) o.trace = backtrace(s);
        }
    }
    // returns false when the path must end
    bool require(State &s, V const &cv, std::string const &kind, std::string const &name, Instruction const *i) {
        if (quiet) {
            if (!cv.sym) return cv.c != 0;
            bool t, f; feas(s, cv.e, t, f);
            if (!t) return false;
            if (f) add(s, cv.e);
            return true;
        }
        Obl &o = obl(kind, name, i);
        o.checks++;
        V c = simp(cv);
        if (!c.sym) {
            if (c.c) { o.trivially++; return true; }
            std::shared_ptr<z3::model> m;
            int r = check(s, Z->bool_val(true), &m);
            if (r == 0) { nInfeasible++; throw PathEnd{"infeasible"}; }
            if (r < 0) { o.unknown++; return false; }
            lastNeg = Z->bool_val(true);
            refute(s, o, m);
            return false;
        }
        std::shared_ptr<z3::model> m;
        bool val;
        int r;
        if (modelSays(s, c.e, val) && !val) { r = 1; m = s.model; }
        else r = check(s, !c.e, &m);
        if (r == 0) { o.proved++; return true; }
        if (r < 0) { o.unknown++; }
        else { lastNeg = !c.e; refute(s, o, m); }
        // continue on the part of the path where it holds
        int q = check(s, c.e);
        if (q == 0) return false;
        add(s, c.e);
        return true;
    }
    void fail(State &s, std::string const &kind, std::string const &name, Instruction const *i) {
        require(s, V::con(1, 0), kind, name, i);
        throw PathEnd{kind + ": " + name};
    }

    // -------------------------------------------------------------- memory
    Obj &obj(State &s, u32 id) { return *s.mem.at(id); }
    Obj &mut(State &s, u32 id) {
        auto &p = s.mem.at(id);
        if (p.use_count() > 1) p = std::make_shared<Obj>(*p);
        return *p;
    }
    u32 alloc(State &s, V size, Obj::Kind k, std::string const &name, int tag = 0) {
        auto o = std::make_shared<Obj>();
        o->id = nextId++;
        o->base = baseOf(o->id);
        o->kind = k; o->name = name; o->allocTag = tag;
        o->size = size;
        if (size.sym) {
            o->logged = true;
            auto l = std::make_shared<Log>();
            l->kind = Log::Base;
            l->arr = Z->constant(("mem!" + std::to_string(fresh++)).c_str(), Z->array_sort(Z->bv_sort(64), Z->bv_sort(8)));
            o->log = l;
        } else {
            if (size.c > (1u << 24)) throw Unsupported{"huge object"};
            o->bytes.assign((size_t) size.c, 0);
            o->st.assign((size_t) size.c, 0);
        }
        u32 id = o->id;
        s.mem[id] = std::move(o);
        return id;
    }
    void splitSym(Obj &o, u32 off) { // replace the cell at off by single-byte cells
        auto it = o.syms.find(off);
        if (it == o.syms.end() || it->second.n == 1) return;
        SymCell c = it->second;
        o.syms.erase(it);
        for (unsigned k = 0; k < c.n; ++k) {
            V b = V::mk(8, c.v.e.extract(8 * k + 7, 8 * k).simplify());
            if (b.sym) { o.syms[off + k] = SymCell{b, 1}; o.st[off + k] = 2; }
            else { o.bytes[off + k] = (u8) b.c; o.st[off + k] = 1; }
        }
    }
    void clearRange(Obj &o, u32 off, u32 n) {
        // split cells that partially overlap, drop the ones inside
        auto it = o.syms.lower_bound(off);
        if (it != o.syms.begin()) {
            auto p = std::prev(it);
            if (p->first + p->second.n > off) { splitSym(o, p->first); }
        }
        it = o.syms.lower_bound(off);
        while (it != o.syms.end() && it->first < off + n) {
            if (it->first + it->second.n > off + n) { u32 k = it->first; splitSym(o, k); it = o.syms.lower_bound(off); continue; }
            it = o.syms.erase(it);
        }
    }
    void store(State &s, u32 id, u64 off, V const &v0) {
        Obj &o = mut(s, id);
        V v = v0;
        unsigned n = (v.w + 7) / 8;
        if (v.w % 8) { // i1 etc.
            if (!v.sym) v = V::con(8 * n, v.c);
            else v = V::mk(8 * n, z3::zext(v.bv(), 8 * n - v.w).simplify());
        }
        clearRange(o, (u32) off, n);
        if (!v.sym) {
            for (unsigned k = 0; k < n; ++k) { o.bytes[off + k] = (u8) (v.c >> (8 * k)); o.st[off + k] = 1; }
        } else {
            for (unsigned k = 0; k < n; ++k) o.st[off + k] = 2;
            o.syms[(u32) off] = SymCell{v, n};
        }
    }
    V loadByte(State &s, u32 id, u64 off) {
        Obj const &o = obj(s, id);
        u8 st = o.st[off];
        if (st == 1) return V::con(8, o.bytes[off]);
        if (st == 0) {
            Obj &m = mut(s, id);
            V f = freshV("uninit", 8);
            m.st[off] = 2; m.syms[(u32) off] = SymCell{f, 1};
            return f;
        }
        auto it = o.syms.upper_bound((u32) off);
        --it;
        unsigned k = (unsigned) (off - it->first);
        if (it->second.n == 1) return it->second.v;
        return V::mk(8, it->second.v.e.extract(8 * k + 7, 8 * k).simplify());
    }
    V load(State &s, u32 id, u64 off, unsigned w) {
        unsigned n = (w + 7) / 8;
        Obj const &o = obj(s, id);
        bool allc = true;
        for (unsigned k = 0; k < n; ++k) if (o.st[off + k] != 1) { allc = false; break; }
        if (allc && n <= 16) {
            u128 c = 0;
            for (unsigned k = 0; k < n; ++k) c |= (u128) o.bytes[off + k] << (8 * k);
            return V::con(w, c);
        }
        auto it = o.syms.find((u32) off);
        if (it != o.syms.end() && it->second.n == n) {
            if (it->second.v.w == w) return it->second.v;
            return truncV(it->second.v, w);
        }
        bool allu = true;
        for (unsigned k = 0; k < n; ++k) if (o.st[off + k] != 0) { allu = false; break; }
        if (allu) { V f = freshV("uninit", 8 * n); store(s, id, off, f); return w == 8 * n ? f : truncV(f, w); }
        V r = loadByte(s, id, off);
        for (unsigned k = 1; k < n; ++k) r = concatV(loadByte(s, id, off + k), r);
        r = simp(r);
        return r.w == w ? r : truncV(r, w);
    }
    static V concatV(V const &hi, V const &lo) {
        if (!hi.sym && !lo.sym && hi.w + lo.w <= 128) return V::con(hi.w + lo.w, (hi.c << lo.w) | lo.c);
        V v; v.w = hi.w + lo.w; v.sym = true; v.e = z3::concat(hi.bv(), lo.bv()); return v;
    }
    static V truncV(V const &a, unsigned w) {
        if (!a.sym) return V::con(w, a.c);
        if (w == a.w) return a;
        if (w == 1) return V::mk(1, (a.e.extract(0, 0) == Z->bv_val(1, 1)).simplify());
        return V::mk(w, a.e.extract(w - 1, 0).simplify());
    }
    static V zextV(V const &a, unsigned w) {
        if (a.w == w) return a;
        if (!a.sym) return V::con(w, a.c);
        if (a.w == 1) return V::mk(w, z3::ite(a.e, bvval(1, w), bvval(0, w)));
        return V::mk(w, z3::zext(a.e, w - a.w));
    }
    static u128 sx(V const &a) { // sign-extend concrete to 128
        if (a.w < 128 && (a.c >> (a.w - 1)) & 1) return a.c | ~maskw(a.w);
        return a.c;
    }
    static V sextV(V const &a, unsigned w) {
        if (a.w == w) return a;
        if (!a.sym) return V::con(w, sx(a));
        if (a.w == 1) return V::mk(w, z3::ite(a.e, bvval(~(u128) 0, w), bvval(0, w)));
        return V::mk(w, z3::sext(a.e, w - a.w));
    }
    // logged objects
    z3::expr readLog(std::shared_ptr<Log const> l, z3::expr idx) {
        // walk newest to oldest building an ite chain
        if (l->kind == Log::Base) return z3::select(l->arr, idx);
        if (l->kind == Log::Store) {
            z3::expr r = *Z; bool have = false; (void) have;
            z3::expr rest = Z->bv_val(0, 8); bool needRest = true;
            // idx in [off, off+n)
            z3::expr d = (idx - l->off).simplify();
            if (d.is_numeral()) {
                u64 k = d.get_numeral_uint64();
                if (k < l->n) return l->val.extract(8 * (unsigned) k + 7, 8 * (unsigned) k).simplify();
                return readLog(l->prev, idx);
            }
            (void) needRest; (void) rest;
            z3::expr e = readLog(l->prev, idx);
            for (unsigned k = 0; k < l->n; ++k)
                e = z3::ite(d == Z->bv_val((uint64_t) k, 64), l->val.extract(8 * k + 7, 8 * k), e);
            return e;
        }
        z3::expr in = z3::ult(idx - l->off, l->len).simplify();
        if (in.is_false()) return readLog(l->prev, idx);
        z3::expr inner = *Z;
        if (l->kind == Log::Set) inner = l->val;
        else inner = readLog(l->src, (idx - l->off + l->soff).simplify());
        if (in.is_true()) return inner;
        return z3::ite(in, inner, readLog(l->prev, idx));
    }
    std::shared_ptr<Log const> logOf(State &s, u32 id) {
        Obj &o = obj(s, id);
        if (o.logged) return o.log;
        // build a log from a concrete-layout object
        auto b = std::make_shared<Log>();
        b->kind = Log::Base;
        b->arr = Z->constant(("mem!" + std::to_string(fresh++)).c_str(), Z->array_sort(Z->bv_sort(64), Z->bv_sort(8)));
        std::shared_ptr<Log const> cur = b;
        for (u64 k = 0; k < (u64) o.size.c; ++k) {
            if (obj(s, id).st[k] == 0) continue;
            auto n = std::make_shared<Log>();
            n->kind = Log::Store; n->off = Z->bv_val((uint64_t) k, 64); n->n = 1; n->val = loadByte(s, id, k).bv(); n->prev = cur;
            cur = n;
        }
        return cur;
    }

    // memcmp under contract, instantiated at the registered index terms
    z3::expr cmpAt(CmpCall const &c, bool left, z3::expr const &ix) {
        z3::expr off = (left ? c.ao : c.bo) + (c.es == 1 ? ix : ix * Z->bv_val(4, 64));
        auto const &l = left ? c.a : c.b;
        z3::expr e = readLog(l, off.simplify());
        for (unsigned k = 1; k < c.es; ++k) e = z3::concat(readLog(l, (off + Z->bv_val(k, 64)).simplify()), e);
        return e.simplify();
    }
    z3::expr cmpInst(CmpCall const &c, z3::expr const &ix) {
        z3::expr lim = z3::ite(c.r == Z->bv_val(0, 32), c.len, c.d);
        return z3::implies(z3::ult(ix, lim), cmpAt(c, true, ix) == cmpAt(c, false, ix)).simplify();
    }
    void registerIndex(State &s, V const &ix) {
        for (auto &c : s.cmpCalls) add(s, cmpInst(c, ix.ex()));
        s.indexTerms.push_back(ix);
        s.model.reset();
    }

    bool wlogOn() const;
    void logWrite(u32 id, u64 off, unsigned n);
    void logObj(u32 id);
    struct Place { u32 id; V off; };
    // Finds the object addr points into (n bytes must fit). May fork. Ends the path on invalid access.
    Place resolve(State &s, V const &a0, V const &n, Instruction const *I, bool write, char const *what) {
        V a = simp(a0);
        u32 id;
        V off;
        if (!a.sym) {
            id = (u32) (a.u() >> IDSHIFT);
            off = V::con(64, a.u() - baseOf(id));
        } else {
            if (!ensureModel(s)) { if (check(s, Z->bool_val(true)) == 0) throw PathEnd{"infeasible"}; throw Unsupported{"no model for address"}; }
            z3::expr mv = meval(*s.model, a.e);
            u64 av = mv.get_numeral_uint64();
            // prefer the object named by the largest constant in the expression
            id = (u32) (av >> IDSHIFT);
            z3::expr same = (a.e.extract(63, IDSHIFT) == Z->bv_val(id, 64 - IDSHIFT)).simplify();
            if (!same.is_true()) {
                int r = check(s, !same);
                if (r != 0) {
                    State o = s; add(o, !same); o.forks++; work->push_back(std::move(o));
                    add(s, same);
                }
            }
            off = simp(V::mk(64, a.e - Z->bv_val((uint64_t) baseOf(id), 64)));
        }
        auto it = s.mem.find(id);
        if (it == s.mem.end() || id == 0) {
            if (id == 0) fail(s, "memory", std::string(what) + " through null or invalid pointer", I);
            fail(s, "memory", std::string(what) + " through wild pointer", I);
        }
        if (!it->second->alive) fail(s, "memory", std::string(what) + " of dead object " + (it->second->kind == Obj::Heap ? "(use after free)" : "(use after scope)"), I);
        if (write && !it->second->writable) fail(s, "memory", "write to constant", I);
        // bounds: n <= size && off <= size - n
        V sz = it->second->size;
        V ok;
        if (!sz.sym && !off.sym && !n.sym) ok = V::con(1, n.c <= sz.c && off.c <= sz.c - n.c);
        else ok = V::mk(1, (z3::ule(n.ex(), sz.ex()) && z3::ule(off.ex(), sz.ex() - n.ex())).simplify());
        if (!require(s, ok, "memory", std::string(what) + " in bounds", I)) throw PathEnd{"out of bounds"};
        return {id, off};
    }
    // for non-logged objects make the offset concrete by forking
    u64 concOff(State &s, V const &off) {
        if (!off.sym) return off.u();
        if (!ensureModel(s)) throw Unsupported{"no model for offset"};
        u64 v = meval(*s.model, off.e).get_numeral_uint64();
        z3::expr eq = off.e == Z->bv_val((uint64_t) v, 64);
        int r = check(s, !eq);
        if (r != 0) { State o = s; add(o, !eq); o.forks++; work->push_back(std::move(o)); add(s, eq); }
        return v;
    }
    V memLoad(State &s, V const &addr, Type *t, Instruction const *I) {
        if (t->isStructTy() || t->isArrayTy()) {
            std::vector<V> xs;
            if (auto *st = dyn_cast<StructType>(t)) {
                auto *sl = DL.getStructLayout(st);
                for (unsigned k = 0; k < st->getNumElements(); ++k)
                    xs.push_back(memLoad(s, addV(addr, V::con(64, sl->getElementOffset(k))), st->getElementType(k), I));
            } else {
                u64 es = DL.getTypeAllocSize(t->getArrayElementType());
                for (unsigned k = 0; k < t->getArrayNumElements(); ++k)
                    xs.push_back(memLoad(s, addV(addr, V::con(64, es * k)), t->getArrayElementType(), I));
            }
            return V::aggregate(std::move(xs));
        }
        unsigned w = bits(t), n = (w + 7) / 8;
        Place p = resolve(s, addr, V::con(64, n), I, false, "read");
        if (obj(s, p.id).logged) {
            auto l = obj(s, p.id).log;
            z3::expr e = readLog(l, p.off.ex());
            for (unsigned k = 1; k < n; ++k) e = z3::concat(readLog(l, (p.off.ex() + Z->bv_val(k, 64)).simplify()), e);
            V r = V::mk(8 * n, e.simplify());
            return r.w == w ? r : truncV(r, w);
        }
        return load(s, p.id, concOff(s, p.off), w);
    }
    void memStore(State &s, V const &addr, V const &v, Type *t, Instruction const *I) {
        if (t->isStructTy() || t->isArrayTy()) {
            if (auto *st = dyn_cast<StructType>(t)) {
                auto *sl = DL.getStructLayout(st);
                for (unsigned k = 0; k < st->getNumElements(); ++k)
                    memStore(s, addV(addr, V::con(64, sl->getElementOffset(k))), (*v.agg)[k], st->getElementType(k), I);
            } else {
                u64 es = DL.getTypeAllocSize(t->getArrayElementType());
                for (unsigned k = 0; k < t->getArrayNumElements(); ++k)
                    memStore(s, addV(addr, V::con(64, es * k)), (*v.agg)[k], t->getArrayElementType(), I);
            }
            return;
        }
        unsigned w = bits(t), n = (w + 7) / 8;
        Place p = resolve(s, addr, V::con(64, n), I, true, "write");
        if (obj(s, p.id).logged) {
            Obj &o = mut(s, p.id);
            auto l = std::make_shared<Log>();
            l->kind = Log::Store; l->off = p.off.ex(); l->n = n;
            l->val = v.w == 8 * n ? v.bv() : z3::zext(v.bv(), 8 * n - v.w);
            l->prev = o.log; o.log = l;
            logObj(p.id);
            return;
        }
        u64 so = concOff(s, p.off);
        logWrite(p.id, so, n);
        store(s, p.id, so, v);
    }
    void copyRange(State &s, u32 did, u64 doff, u32 sid, u64 soff, u64 n) {
        // gather then write (memmove semantics)
        struct Piece { u64 at; V v; u8 st; };
        std::vector<Piece> ps;
        for (u64 k = 0; k < n;) {
            Obj const &so = obj(s, sid);
            u64 p = soff + k;
            if (so.st[p] == 2) {
                auto it = so.syms.find((u32) p);
                if (it != so.syms.end() && it->second.n <= n - k) { ps.push_back({k, it->second.v, 2}); k += it->second.n; continue; }
                ps.push_back({k, loadByte(s, sid, p), 2}); ++k; continue;
            }
            ps.push_back({k, so.st[p] ? V::con(8, so.bytes[p]) : V(), so.st[p]}); ++k;
        }
        Obj &d = mut(s, did);
        clearRange(d, (u32) doff, (u32) n);
        if (wlogOn()) { // group runs of concrete bytes into words
            for (size_t k = 0; k < ps.size();) {
                unsigned nb = ps[k].st == 2 ? ps[k].v.w / 8 : 1;
                if (ps[k].st != 2 && (doff + ps[k].at) % 8 == 0 && k + 8 <= ps.size()) {
                    bool run = true;
                    for (size_t j = k; j < k + 8; ++j) if (ps[j].st == 2) run = false;
                    if (run) { logWrite(did, doff + ps[k].at, 8); k += 8; continue; }
                }
                logWrite(did, doff + ps[k].at, nb);
                ++k;
            }
        }
        for (auto &pc : ps) {
            u64 at = doff + pc.at;
            if (pc.st == 0) { d.st[at] = 0; }
            else if (!pc.v.sym) { unsigned nb = pc.v.w / 8; for (unsigned k = 0; k < nb; ++k) { d.bytes[at + k] = (u8) (pc.v.c >> (8 * k)); d.st[at + k] = 1; } }
            else { unsigned nb = pc.v.w / 8; for (unsigned k = 0; k < nb; ++k) d.st[at + k] = 2; d.syms[(u32) at] = SymCell{pc.v, nb}; }
        }
    }
    void memCopy(State &s, V const &d, V const &sr, V const &n0, Instruction const *I) {
        V n = simp(n0);
        if (!n.sym && n.c == 0) return;
        if (n.sym) {
            bool isz = decide(s, V::mk(1, (n.ex() == Z->bv_val(0, 64)).simplify()));
            if (isz) return;
        }
        Place ps = resolve(s, sr, n, I, false, "copy source");
        Place pd = resolve(s, d, n, I, true, "copy destination");
        bool lg = obj(s, ps.id).logged || obj(s, pd.id).logged;
        if (!lg) {
            u64 nn = concOff(s, n), so = concOff(s, ps.off), dof = concOff(s, pd.off);
            copyRange(s, pd.id, dof, ps.id, so, nn);
            return;
        }
        auto srcLog = logOf(s, ps.id);
        if (!obj(s, pd.id).logged) {
            // copy out of a logged object into a concrete one
            u64 nn = concOff(s, n), dof = concOff(s, pd.off);
            for (u64 k = 0; k < nn; ++k) logWrite(pd.id, dof + k, 1);
            for (u64 k = 0; k < nn; ++k)
                store(s, pd.id, dof + k, V::mk(8, readLog(srcLog, (ps.off.ex() + Z->bv_val((uint64_t) k, 64)).simplify()).simplify()));
            return;
        }
        Obj &o = mut(s, pd.id);
        auto l = std::make_shared<Log>();
        l->kind = Log::Copy; l->off = pd.off.ex(); l->len = n.ex(); l->src = srcLog; l->soff = ps.off.ex(); l->prev = o.log;
        o.log = l;
        logObj(pd.id);
    }
    void memSet(State &s, V const &d, V const &b, V const &n0, Instruction const *I) {
        V n = simp(n0);
        if (!n.sym && n.c == 0) return;
        Place pd = resolve(s, d, n, I, true, "memset");
        if (obj(s, pd.id).logged) {
            Obj &o = mut(s, pd.id);
            auto l = std::make_shared<Log>();
            l->kind = Log::Set; l->off = pd.off.ex(); l->len = n.ex(); l->val = b.ex(); l->prev = o.log; o.log = l;
            logObj(pd.id);
            return;
        }
        u64 nn = concOff(s, n), dof = concOff(s, pd.off);
        for (u64 k = 0; k < nn; ++k) { logWrite(pd.id, dof + k, 1); store(s, pd.id, dof + k, b); }
    }
    static V addV(V const &a, V const &b) {
        if (!a.sym && !b.sym) return V::con(a.w, a.c + b.c);
        if (!b.sym && b.c == 0) return a;
        if (!a.sym && a.c == 0) return b;
        return V::mk(a.w, (a.ex() + b.ex()));
    }

    // -------------------------------------------------------------- globals
    void writeConst(State &s, u32 id, u64 off, Constant *c) {
        Type *t = c->getType();
        if (isa<ConstantAggregateZero>(c) || (isa<ConstantPointerNull>(c))) {
            u64 n = DL.getTypeStoreSize(t);
            Obj &o = mut(s, id);
            for (u64 k = 0; k < n; ++k) { o.bytes[off + k] = 0; o.st[off + k] = 1; }
            return;
        }
        if (isa<UndefValue>(c)) return;
        if (auto *ds = dyn_cast<ConstantDataSequential>(c)) {
            u64 es = DL.getTypeAllocSize(ds->getElementType());
            for (unsigned k = 0; k < ds->getNumElements(); ++k) writeConst(s, id, off + es * k, ds->getElementAsConstant(k));
            return;
        }
        if (auto *cs = dyn_cast<ConstantStruct>(c)) {
            auto *sl = DL.getStructLayout(cs->getType());
            for (unsigned k = 0; k < cs->getNumOperands(); ++k) writeConst(s, id, off + sl->getElementOffset(k), cs->getOperand(k));
            return;
        }
        if (auto *ca = dyn_cast<ConstantArray>(c)) {
            u64 es = DL.getTypeAllocSize(ca->getType()->getElementType());
            for (unsigned k = 0; k < ca->getNumOperands(); ++k) writeConst(s, id, off + es * k, ca->getOperand(k));
            return;
        }
        V v = constant(s, c);
        store(s, id, off, v);
    }
    u64 globalAddr(State &s, GlobalValue *g) {
        if (auto *f = dyn_cast<Function>(g)) return fnAddr.at(f);
        if (auto *a = dyn_cast<GlobalAlias>(g)) return globalAddr(s, cast<GlobalValue>(a->getAliasee()->stripPointerCasts()));
        auto it = gid.find(g);
        if (it != gid.end()) {
            if (!s.mem.count(it->second)) initGlobal(s, cast<GlobalVariable>(g), it->second);
            return baseOf(it->second);
        }
        u32 id = nextId++;
        gid[g] = id;
        if (g->getName().starts_with("_ZTI")) tiName[baseOf(id)] = g->getName().str();
        initGlobal(s, cast<GlobalVariable>(g), id);
        return baseOf(id);
    }
    void initGlobal(State &s, GlobalVariable *g, u32 id) {
        auto o = std::make_shared<Obj>();
        o->id = id; o->base = baseOf(id); o->kind = Obj::Global; o->name = g->getName().str();
        u64 sz = g->getValueType()->isSized() ? DL.getTypeAllocSize(g->getValueType()) : 64;
        if (!g->hasInitializer() && sz < 64) sz = 64;
        o->size = V::con(64, sz);
        o->bytes.assign(sz, 0); o->st.assign(sz, 0);
        s.mem[id] = o;
        o.reset();
        if (g->hasInitializer()) writeConst(s, id, 0, g->getInitializer());
        mut(s, id).writable = !g->isConstant();
    }
    u64 extGlobal(State &s, std::string const &name) {
        if (auto *g = M.getNamedValue(name)) return globalAddr(s, g);
        auto &id = extGlob[name];
        if (!id) id = nextId++;
        if (!s.mem.count(id)) {
            auto o = std::make_shared<Obj>();
            o->id = id; o->base = baseOf(id); o->kind = Obj::Global; o->name = name; o->size = V::con(64, 64);
            o->bytes.assign(64, 0); o->st.assign(64, 1);
            s.mem[id] = o;
        }
        tiName[baseOf(id)] = name;
        return baseOf(id);
    }
    V constant(State &s, Constant *c) {
        Type *t = c->getType();
        if (auto *ci = dyn_cast<ConstantInt>(c)) {
            if (ci->getBitWidth() <= 64) return V::con(ci->getBitWidth(), ci->getZExtValue());
            if (ci->getBitWidth() <= 128) { auto const *d = ci->getValue().getRawData(); return V::con(ci->getBitWidth(), ((u128) d[1] << 64) | d[0]); }
            throw Unsupported{"wide constant"};
        }
        if (isa<ConstantPointerNull>(c)) return V::con(64, 0);
        if (auto *cf = dyn_cast<ConstantFP>(c)) {
            auto b = cf->getValueAPF().bitcastToAPInt();
            if (b.getBitWidth() > 64) throw Unsupported{"long double"};
            return V::con(b.getBitWidth(), b.getZExtValue());
        }
        if (auto *g = dyn_cast<GlobalValue>(c)) return V::con(64, globalAddr(s, g));
        if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
            if (auto *st = dyn_cast<StructType>(t)) {
                std::vector<V> xs;
                for (auto *et : st->elements()) xs.push_back(constant(s, isa<UndefValue>(c) ? (Constant *) UndefValue::get(et) : Constant::getNullValue(et)));
                return V::aggregate(std::move(xs));
            }
            if (t->isArrayTy()) {
                std::vector<V> xs;
                for (unsigned k = 0; k < t->getArrayNumElements(); ++k) xs.push_back(constant(s, isa<UndefValue>(c) ? (Constant *) UndefValue::get(t->getArrayElementType()) : Constant::getNullValue(t->getArrayElementType())));
                return V::aggregate(std::move(xs));
            }
            if (isa<UndefValue>(c)) return freshV("undef", bits(t));
            return V::con(bits(t), 0);
        }
        if (auto *cs = dyn_cast<ConstantStruct>(c)) {
            std::vector<V> xs;
            for (auto &o : cs->operands()) xs.push_back(constant(s, cast<Constant>(o)));
            return V::aggregate(std::move(xs));
        }
        if (auto *ds = dyn_cast<ConstantDataSequential>(c)) {
            std::vector<V> xs;
            for (unsigned k = 0; k < ds->getNumElements(); ++k) xs.push_back(constant(s, ds->getElementAsConstant(k)));
            return V::aggregate(std::move(xs));
        }
        if (auto *ca = dyn_cast<ConstantArray>(c)) {
            std::vector<V> xs;
            for (auto &o : ca->operands()) xs.push_back(constant(s, cast<Constant>(o)));
            return V::aggregate(std::move(xs));
        }
        if (auto *ce = dyn_cast<ConstantExpr>(c)) {
            switch (ce->getOpcode()) {
                case Instruction::GetElementPtr: {
                    APInt off(64, 0);
                    if (cast<GEPOperator>(ce)->accumulateConstantOffset(DL, off))
                        return addV(constant(s, ce->getOperand(0)), V::con(64, off.getZExtValue()));
                    throw Unsupported{"constant gep"};
                }
                case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast: {
                    V v = constant(s, ce->getOperand(0));
                    unsigned w = bits(t);
                    return w < v.w ? truncV(v, w) : zextV(v, w);
                }
                case Instruction::Trunc: return truncV(constant(s, ce->getOperand(0)), bits(t));
                case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::Xor:
                    return binop(s, ce->getOpcode(), constant(s, ce->getOperand(0)), constant(s, ce->getOperand(1)), nullptr);
                case Instruction::ICmp:
                    return icmp((CmpInst::Predicate) ce->getPredicate(), constant(s, ce->getOperand(0)), constant(s, ce->getOperand(1)));
                default: throw Unsupported{std::string("constant expression ") + ce->getOpcodeName()};
            }
        }
        if (auto *b = dyn_cast<DSOLocalEquivalent>(c)) return constant(s, b->getGlobalValue());
        throw Unsupported{"constant kind"};
    }

    // -------------------------------------------------------------- arithmetic
    V binop(State &s, unsigned op, V const &a, V const &b, Instruction const *I) {
        unsigned w = a.w;
        if (a.isAgg()) throw Unsupported{"vector op"};
        if (!a.sym && !b.sym) {
            u128 x = a.c, y = b.c; u128 m = maskw(w);
            switch (op) {
                case Instruction::Add: return V::con(w, x + y);
                case Instruction::Sub: return V::con(w, x - y);
                case Instruction::Mul: return V::con(w, x * y);
                case Instruction::And: return V::con(w, x & y);
                case Instruction::Or: return V::con(w, x | y);
                case Instruction::Xor: return V::con(w, x ^ y);
                case Instruction::Shl: return V::con(w, y >= w ? 0 : x << (unsigned) y);
                case Instruction::LShr: return V::con(w, y >= w ? 0 : x >> (unsigned) y);
                case Instruction::AShr: { __int128 v = (__int128) sx(a); return V::con(w, y >= w ? (u128) (v < 0 ? -1 : 0) : (u128) (v >> (unsigned) y)); }
                case Instruction::UDiv: if (y) return V::con(w, x / y); break;
                case Instruction::URem: if (y) return V::con(w, x % y); break;
                case Instruction::SDiv: if (y) { __int128 p = (__int128) sx(a), q = (__int128) sx(b); if (q == -1) return V::con(w, (u128) 0 - x); return V::con(w, (u128) (p / q)); } break;
                case Instruction::SRem: if (y) { __int128 p = (__int128) sx(a), q = (__int128) sx(b); if (q == -1) return V::con(w, 0); return V::con(w, (u128) (p % q)); } break;
                case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
                    auto fop = [&](auto p, auto q) { using F = decltype(p); switch (op) { case Instruction::FAdd: return (F) (p + q); case Instruction::FSub: return (F) (p - q); case Instruction::FMul: return (F) (p * q); default: return (F) (p / q); } };
                    if (w == 64) { double p, q; u64 t = a.u(); memcpy(&p, &t, 8); t = b.u(); memcpy(&q, &t, 8); double r = fop(p, q); memcpy(&t, &r, 8); return V::con(64, t); }
                    if (w == 32) { float p, q; u32 t = (u32) a.u(); memcpy(&p, &t, 4); t = (u32) b.u(); memcpy(&q, &t, 4); float r = fop(p, q); memcpy(&t, &r, 4); return V::con(32, t); }
                    break;
                }
            }
            (void) m;
            if (op == Instruction::UDiv || op == Instruction::SDiv || op == Instruction::URem || op == Instruction::SRem) {
                fail(s, "ub", "division by zero", I);
            }
            throw Unsupported{"float op"};
        }
        if (w == 1) {
            z3::expr x = a.ex(), y = b.ex();
            switch (op) {
                case Instruction::And: case Instruction::Mul: return V::mk(1, (x && y).simplify());
                case Instruction::Or: return V::mk(1, (x || y).simplify());
                case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return V::mk(1, (x != y).simplify());
                default: throw Unsupported{"i1 op"};
            }
        }
        z3::expr x = a.ex(), y = b.ex();
        switch (op) {
            case Instruction::Add: return V::mk(w, x + y);
            case Instruction::Sub: return V::mk(w, (x - y).simplify());
            case Instruction::Mul:
                if (a.sym && b.sym && w >= 32 && s.flags["products"]) return product(s, a, b);
                return V::mk(w, (x * y).simplify());
            case Instruction::And: return V::mk(w, (x & y).simplify());
            case Instruction::Or: return V::mk(w, (x | y).simplify());
            case Instruction::Xor: return V::mk(w, (x ^ y).simplify());
            case Instruction::Shl: return V::mk(w, z3::shl(x, y).simplify());
            case Instruction::LShr: return V::mk(w, z3::lshr(x, y).simplify());
            case Instruction::AShr: return V::mk(w, z3::ashr(x, y).simplify());
            case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem:
                if (b.sym || b.c == 0)
                    if (!require(s, V::mk(1, (y != bvval(0, w)).simplify()), "ub", "division by zero", I)) throw PathEnd{"div by zero"};
                if ((op == Instruction::UDiv || op == Instruction::URem) && b.sym && w >= 24 && w <= 64 && s.flags["products"]) {
                    // the definition of the quotient and remainder: x = q*y + r without overflow, r < y
                    std::string key = std::to_string(Z_get_id(x)) + "/" + std::to_string(Z_get_id(y));
                    auto it = divs.find(key);
                    if (it == divs.end()) it = divs.emplace(key, std::array<z3::expr, 4>{freshV("quot", w).e, freshV("rem", w).e, x, y}).first;
                    z3::expr q = it->second[0], r = it->second[1];
                    bool known = false;
                    for (auto &d : s.divs) known |= d[0].id() == q.id();
                    if (!known) {
                        s.divs.push_back(it->second);
                        V p = product2(s, V::mk(2 * w, z3::zext(q, w)), V::mk(2 * w, z3::zext(y, w).simplify()));
                        add(s, (z3::zext(x, w) == p.ex() + z3::zext(r, w)) && z3::ult(r, y));
                        add(s, z3::ule(q, x));
                        auto ds = s.divs;
                        auto hints = s.divHints;
                        for (auto &h : hints) applyDivHint(s, h, ds.size() - 1, ds);
                    }
                    return V::mk(w, op == Instruction::UDiv ? q : r);
                }
                switch (op) {
                    case Instruction::UDiv: return V::mk(w, z3::udiv(x, y).simplify());
                    case Instruction::URem: return V::mk(w, z3::urem(x, y).simplify());
                    case Instruction::SDiv: return V::mk(w, (x / y).simplify());
                    default: return V::mk(w, z3::srem(x, y).simplify());
                }
            default: throw Unsupported{"symbolic float op"};
        }
    }
    static V icmp(CmpInst::Predicate p, V const &a, V const &b) {
        if (!a.sym && !b.sym) {
            __int128 x = (__int128) sx(a), y = (__int128) sx(b);
            bool r = false;
            switch (p) {
                case CmpInst::ICMP_EQ: r = a.c == b.c; break;
                case CmpInst::ICMP_NE: r = a.c != b.c; break;
                case CmpInst::ICMP_ULT: r = a.c < b.c; break;
                case CmpInst::ICMP_ULE: r = a.c <= b.c; break;
                case CmpInst::ICMP_UGT: r = a.c > b.c; break;
                case CmpInst::ICMP_UGE: r = a.c >= b.c; break;
                case CmpInst::ICMP_SLT: r = x < y; break;
                case CmpInst::ICMP_SLE: r = x <= y; break;
                case CmpInst::ICMP_SGT: r = x > y; break;
                case CmpInst::ICMP_SGE: r = x >= y; break;
                default: throw Unsupported{"icmp"};
            }
            return V::con(1, r);
        }
        if (a.w == 1 && (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE)) {
            z3::expr e = p == CmpInst::ICMP_EQ ? (a.ex() == b.ex()) : (a.ex() != b.ex());
            return V::mk(1, e.simplify());
        }
        z3::expr x = a.bv(), y = b.bv();
        z3::expr e(*Z);
        switch (p) {
            case CmpInst::ICMP_EQ: e = x == y; break;
            case CmpInst::ICMP_NE: e = x != y; break;
            case CmpInst::ICMP_ULT: e = z3::ult(x, y); break;
            case CmpInst::ICMP_ULE: e = z3::ule(x, y); break;
            case CmpInst::ICMP_UGT: e = z3::ugt(x, y); break;
            case CmpInst::ICMP_UGE: e = z3::uge(x, y); break;
            case CmpInst::ICMP_SLT: e = x < y; break;
            case CmpInst::ICMP_SLE: e = x <= y; break;
            case CmpInst::ICMP_SGT: e = x > y; break;
            case CmpInst::ICMP_SGE: e = x >= y; break;
            default: throw Unsupported{"icmp"};
        }
        return V::mk(1, e.simplify());
    }
    static V iteV(V const &c, V const &a, V const &b) {
        if (!c.sym) return c.c ? a : b;
        if (a.isAgg()) {
            std::vector<V> xs;
            for (size_t k = 0; k < a.agg->size(); ++k) xs.push_back(iteV(c, (*a.agg)[k], (*b.agg)[k]));
            return V::aggregate(std::move(xs));
        }
        if (!a.sym && !b.sym && a.c == b.c) return a;
        if (a.w == 1) return V::mk(1, z3::ite(c.e, a.ex(), b.ex()).simplify());
        return V::mk(a.w, z3::ite(c.e, a.ex(), b.ex()).simplify());
    }

    V eval(State &s, Value *v) {
        if (auto *c = dyn_cast<Constant>(v)) return constant(s, c);
        Frame &f = s.fr.back();
        auto &fi = info(f.fn);
        auto it = fi.slot.find(v);
        if (it == fi.slot.end()) throw Unsupported{"operand"};
        return f.regs[it->second];
    }
    void set(State &s, Instruction *i, V v) {
        Frame &f = s.fr.back();
        f.regs[info(f.fn).slot.at(i)] = std::move(v);
    }

    // -------------------------------------------------------------- control
    void pushFrame(State &s, Function *fn, std::vector<V> args, CallBase *call, Frame::Special sp = Frame::None) {
        if (s.fr.size() > 400) fail(s, "termination", "call depth bound", call);
        auto &fi = info(fn);
        if (!quiet && seenFn.insert(fn).second) {
            if (fi.file.find("dice/template-library") != std::string::npos) funcs[fi.file.substr(fi.file.rfind('/') + 1)].insert(fi.dem);
        }
        Frame f;
        f.fn = fn; f.call = call; f.special = sp; f.uid = frameUid++;
        f.regs.resize(fi.n);
        unsigned k = 0;
        for (auto &a : fn->args()) {
            if (k < args.size()) {
                V v = args[k];
                if (a.hasByValAttr()) {
                    Type *t = a.getParamByValType();
                    u64 n = DL.getTypeAllocSize(t);
                    u32 id = alloc(s, V::con(64, n), Obj::Stack, "byval");
                    memCopy(s, V::con(64, baseOf(id)), v, V::con(64, n), call);
                    f.allocas.push_back(id);
                    v = V::con(64, baseOf(id));
                }
                f.regs[fi.slot.at(&a)] = v;
            }
            ++k;
        }
        f.bb = &fn->getEntryBlock();
        f.pc = f.bb->begin();
        s.fr.push_back(std::move(f));
    }
    void popFrame(State &s) {
        Frame &f = s.fr.back();
        for (u32 id : f.allocas) { Obj &o = mut(s, id); o.alive = false; o.bytes.clear(); o.st.clear(); o.syms.clear(); }
        s.fr.pop_back();
    }
    // jump within the current frame; returns false if the path was stopped by a hook
    bool jump(State &s, BasicBlock *to) {
        Frame &f = s.fr.back();
        f.prev = f.bb; f.bb = to; f.pc = to->begin();
        // phis
        std::vector<std::pair<Instruction *, V>> vals;
        for (auto &i : *to) {
            auto *p = dyn_cast<PHINode>(&i);
            if (!p) break;
            vals.push_back({p, eval(s, p->getIncomingValueForBlock(f.prev))});
        }
        for (auto &[i, v] : vals) set(s, i, v);
        while (isa<PHINode>(&*s.fr.back().pc)) ++s.fr.back().pc;
        if (onBlock && onBlock(s)) return false;
        if (!atBlock(s)) return false;
        return true;
    }
    bool atBlock(State &s);

    // -------------------------------------------------------------- exceptions
    static char const *stdBase(std::string const &n) {
        static std::map<std::string, char const *> t{
            {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt15underflow_error", "_ZTISt13runtime_error"},
            {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"},
            {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"},
            {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
            {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"},
            {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"},
            {"_ZTISt18bad_variant_access", "_ZTISt9exception"}, {"_ZTISt19bad_optional_access", "_ZTISt9exception"},
            {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"},
            {"_ZTISt12format_error", "_ZTISt13runtime_error"}, {"_ZTISt12bad_weak_ptr", "_ZTISt9exception"}};
        auto it = t.find(n);
        return it == t.end() ? nullptr : it->second;
    }
    bool derives(std::string const &d, std::string const &b, int depth = 0) {
        if (d == b) return true;
        if (depth > 10) return false;
        if (auto *g = M.getGlobalVariable(d, true); g && g->hasInitializer()) {
            auto *cs = dyn_cast<ConstantStruct>(g->getInitializer());
            if (!cs) return false;
            for (unsigned k = 2; k < cs->getNumOperands(); ++k)
                if (auto *gv = dyn_cast<GlobalValue>(cs->getOperand(k)->stripPointerCasts()))
                    if (derives(gv->getName().str(), b, depth + 1)) return true;
            return false;
        }
        if (auto *p = stdBase(d)) return derives(p, b, depth + 1);
        return false;
    }
    std::string tiNameOf(u64 a) { auto it = tiName.find(a); return it == tiName.end() ? "?" : it->second; }
    Exc *findExc(State &s, u64 p) { for (auto &e : s.excs) if (e.ptr == p) return &e; return nullptr; }
    u64 typeIdFor(u64 ti) { return ((ti - BASEOFF) >> IDSHIFT) & 0x7fffffff; }

    // unwinds s with s.inflight set; positions s at a landing pad or ends the path
    void unwind(State &s, Instruction const *from) {
        Exc *ex = findExc(s, s.inflight);
        std::string thrown = ex ? tiNameOf(ex->tinfo) : "?";
        while (true) {
            Frame &f = s.fr.back();
            CallBase *cb = f.call;
            Frame::Special sp = f.special;
            popFrame(s);
            if (s.fr.empty() || sp != Frame::None) {
                fail0(s, "exception", "no uncaught exception (" + llvm::demangle(thrown) + ")", from);
                throw PathEnd{"uncaught"};
            }
            if (tryLand(s, cb, thrown)) return;
        }
    }
    void fail0(State &s, std::string const &kind, std::string const &name, Instruction const *i) { require(s, V::con(1, 0), kind, name, i); }
    bool tryLand(State &s, CallBase *cb, std::string const &thrown) {
        auto *inv = dyn_cast_or_null<InvokeInst>(cb);
        if (!inv) return false;
        LandingPadInst *lp = inv->getLandingPadInst();
        u64 sel = 0; bool match = false;
        for (unsigned k = 0; k < lp->getNumClauses(); ++k) {
            if (lp->isCatch(k)) {
                Constant *c = lp->getClause(k)->stripPointerCasts();
                if (isa<ConstantPointerNull>(c)) { match = true; sel = 1; break; }
                std::string nm = cast<GlobalValue>(c)->getName().str();
                if (derives(thrown, nm)) { match = true; sel = typeIdFor(globalAddr(s, cast<GlobalValue>(c))); break; }
            } else {
                // filter: treat an exception specification as violated unless listed
                match = true; sel = (u64) -1 & 0xffffffff; break;
            }
        }
        if (!match && !lp->isCleanup()) return false;
        if (!match) sel = 0;
        BasicBlock *to = inv->getUnwindDest();
        Frame &f = s.fr.back();
        f.prev = f.bb; f.bb = to; f.pc = to->begin();
        std::vector<std::pair<Instruction *, V>> vals;
        for (auto &i : *to) { auto *p = dyn_cast<PHINode>(&i); if (!p) break; vals.push_back({p, eval(s, p->getIncomingValueForBlock(f.prev))}); }
        for (auto &[i, v] : vals) set(s, i, v);
        set(s, lp, V::aggregate({V::con(64, s.inflight), V::con(32, sel)}));
        s.fr.back().pc = std::next(lp->getIterator());
        return true;
    }
    // throw at the current instruction (a call in the top frame)
    void throwExc(State &s, u64 ptr, CallBase *cb) {
        s.inflight = ptr;
        Exc *e = findExc(s, ptr);
        std::string thrown = e ? tiNameOf(e->tinfo) : "?";
        if (tryLand(s, cb, thrown)) return;
        unwind(s, cb);
    }
    void throwStd(State &s, std::string const &ti, CallBase *cb) {
        u64 t = extGlobal(s, ti);
        tiName[t] = ti;
        u32 id = alloc(s, V::con(64, 64), Obj::Exc, "exception");
        memSet(s, V::con(64, baseOf(id)), V::con(8, 0), V::con(64, 64), cb);
        Exc e; e.ptr = baseOf(id); e.tinfo = t;
        s.excs.push_back(e);
        s.uncaught++;
        throwExc(s, e.ptr, cb);
    }

    // after a call completed with a value
    void finishCall(State &s, CallBase *cb, V const &v) {
        if (!cb->getType()->isVoidTy()) set(s, cb, v);
        if (auto *inv = dyn_cast<InvokeInst>(cb)) { if (!jump(s, inv->getNormalDest())) throw PathEnd{"stopped"}; }
        else ++s.fr.back().pc;
    }
    void doReturn(State &s, V v) {
        CallBase *cb = s.fr.back().call;
        Frame::Special sp = s.fr.back().special;
        u64 efree = s.fr.back().excToFree;
        if (sp == Frame::Top) { s.retval = v; popFrame(s); throw PathEnd{"done"}; }
        if (sp == Frame::Resume && s.inHook && (s.fr.back().fn == s.hookBefore || s.fr.back().fn == s.hookAfter)) s.inHook = 0;
        popFrame(s);
        if (sp == Frame::EndCatch) { freeExc(s, efree); finishCall(s, cb, V()); return; }
        if (sp == Frame::Resume) return;   // engine-inserted call: continue at the caller's pc
        finishCall(s, cb, v);
    }
    // Atomic accesses to shared objects: the environment may act before them (rely), the harness judges them (guarantee).
    // Returns false if the instruction has to wait for the hook that was called.
    u32 sharedAt(State &s, V const &p, u64 &off) {
        if (!s.hookBefore || s.inHook) return 0;
        V q = simp(p);
        if (q.sym) return 0;
        u32 id = (u32) (q.u() >> IDSHIFT);
        if (!s.sharedObjs.count(id)) return 0;
        off = q.u() - baseOf(id);
        return id;
    }
    bool atomicBefore(State &s, V const &p) {
        u64 off = 0;
        u32 id = sharedAt(s, p, off);
        if (!id) return true;
        if (s.fr.back().hooked) return true;
        s.atomicWords.insert({id, off});
        s.fr.back().hooked = true;
        s.inHook = 1;
        pushFrame(s, s.hookBefore, {simp(p)}, nullptr, Frame::Resume);
        return false;
    }
    void atomicAfter(State &s, V const &p, V const &old, V const &nv) {
        u64 off = 0;
        if (!sharedAt(s, p, off)) return;
        s.fr.back().hooked = false;
        ++s.fr.back().pc;
        s.inHook = 1;
        auto ext = [](V const &v) { return v.w < 64 ? zextV(v, 64) : v; };
        pushFrame(s, s.hookAfter, {simp(p), ext(old), ext(nv)}, nullptr, Frame::Resume);
    }
    // Plain accesses: allowed while the harness says the protecting lock is held ("lock_held"); otherwise a write, or a
    // read of a word that is accessed atomically or was modified under the lock, is a race.
    void plainAccess(State &s, V const &p, bool write, Instruction const *I, u64 size = 8) {
        if (!s.hookBefore || s.inHook) return;
        u64 off = 0;
        u32 id = sharedAt(s, p, off);
        if (!id) return;
        if (s.flags["lock_held"]) {
            if (write) for (u64 k = off & ~7ull; k < off + size; k += 8) s.lockedWords.insert({id, k});
            return;
        }
        if (write) fail(s, "race", "shared state is only modified atomically or under its lock", I);
        if (s.atomicWords.count({id, off})) fail(s, "race", "shared state is only read atomically", I);
        for (u64 k = off & ~7ull; k < off + size; k += 8) if (s.lockedWords.count({id, k})) { fail(s, "race", "shared state is only read under its lock", I); break; }
    }
    void freeExc(State &s, u64 p) {
        for (size_t k = 0; k < s.excs.size(); ++k) if (s.excs[k].ptr == p) { s.excs.erase(s.excs.begin() + k); break; }
        u32 id = (u32) (p >> IDSHIFT);
        if (s.mem.count(id)) mut(s, id).alive = false;
    }

    std::string cstr(State &s, V const &p) {
        if (p.sym || p.c == 0) return "?";
        std::string r;
        u64 a = p.u();
        u32 id = (u32) (a >> IDSHIFT);
        auto it = s.mem.find(id);
        if (it == s.mem.end()) return "?";
        for (u64 o = a - baseOf(id); o < it->second->bytes.size() && it->second->bytes[o]; ++o) r += (char) it->second->bytes[o];
        return r;
    }

    // a function the harness module provides in place of an external one: vfs_<mangled name>
    std::unordered_map<Function const *, Function *> stubs;
    Function *stubOf(Function *fn) {
        auto it = stubs.find(fn);
        if (it != stubs.end()) return it->second;
        Function *r = M.getFunction(("vfs_" + fn->getName()).str());
        if (r && r->isDeclaration()) r = nullptr;
        return stubs[fn] = r;
    }
    bool callExternal(State &s, CallBase *cb, Function *fn, std::vector<V> const &args);
    bool intrinsic(State &s, CallBase *cb, Function *fn, std::vector<V> &args);
    void step(State &s);
    void runPath(State &s);
    void exploreAll(State s0);
    bool callPredicate(State const &base, Function *fn, std::vector<V> args, z3::expr &out, bool value = false);
    bool loopCut(State &s);
    bool rangeOf(State &s, V const &v, bool sg, __int128 &lo, __int128 &hi) {
        if (!v.sym) { lo = hi = sg ? (__int128) sx(v) : (__int128) v.c; return true; }
        z3::expr e = v.ex().simplify();
        for (auto &r : s.ranges) if (r.sg == sg && (z3::eq(r.e, e) || z3::eq(r.e, v.ex()))) { lo = r.lo; hi = r.hi; return true; }
        return false;
    }
    // the frames below the contract of an external function, with their variables and the heap, are as at an earlier call
    bool cycle(State &s) {
        State::Snap n;
        for (auto &f : s.fr) {
            if (f.fn->getName().starts_with("vfs_")) break;
            n.at.push_back({f.uid, &*f.pc});
            for (u32 id : f.allocas) if (s.mem.count(id)) n.mem[id] = s.mem.at(id);
        }
        for (auto &[id, o] : s.mem) if (o->alive && o->kind == Obj::Heap) n.mem[id] = o;
        auto same = [](Obj const &a, Obj const &b) {
            if (&a == &b) return true;
            if (a.alive != b.alive || a.logged || b.logged || a.bytes.size() != b.bytes.size() || a.st != b.st || a.syms.size() != b.syms.size()) return false;
            for (size_t k = 0; k < a.bytes.size(); ++k) if (a.st[k] == 1 && a.bytes[k] != b.bytes[k]) return false;
            for (auto i = a.syms.begin(), j = b.syms.begin(); i != a.syms.end(); ++i, ++j)
                if (i->first != j->first || i->second.n != j->second.n || !z3::eq(i->second.v.bv(), j->second.v.bv())) return false;
            return true;
        };
        for (auto &o : s.snaps) {
            if (o.at != n.at || o.mem.size() != n.mem.size()) continue;
            bool eq = true;
            for (auto i = o.mem.begin(), j = n.mem.begin(); eq && i != o.mem.end(); ++i, ++j) eq = i->first == j->first && same(*i->second, *j->second);
            if (eq) return true;
        }
        s.snaps.push_back(std::move(n));
        return false;
    }
    struct Nest;
    Nest *nest = nullptr;
    bool exploreIteration(State s0, Nest &n);
    struct WriteLog { std::set<std::tuple<u32, u32, unsigned>> cells; std::set<u32> objs; };
    WriteLog *wlog = nullptr;
    void report(std::ostream &o, std::string const &entry);
};

bool Engine::wlogOn() const { return wlog != nullptr; }
void Engine::logWrite(u32 id, u64 off, unsigned n) { if (wlog) wlog->cells.insert({id, (u32) off, n}); }
void Engine::logObj(u32 id) { if (wlog) wlog->objs.insert(id); }
// ================================================================== calls
static std::string sname(Function *f) { return f->getName().str(); }

bool Engine::intrinsic(State &s, CallBase *cb, Function *fn, std::vector<V> &a) {
    auto fin = [&](V const &v) { finishCall(s, cb, v); return true; };
    unsigned w = 0;
    if (cb->getType()->isIntegerTy() || cb->getType()->isPointerTy()) w = bits(cb->getType());
    switch (fn->getIntrinsicID()) {
        case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign:
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::donothing:
        case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::experimental_noalias_scope_decl:
        case Intrinsic::assume: case Intrinsic::stackrestore: case Intrinsic::prefetch:
            return fin(V::con(w ? w : 1, 0));
        case Intrinsic::stacksave: return fin(V::con(64, 0));
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:
            memCopy(s, a[0], a[1], a[2], cb); return fin(V());
        case Intrinsic::memset: memSet(s, a[0], a[1], a[2], cb); return fin(V());
        case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group:
        case Intrinsic::threadlocal_address: case Intrinsic::ssa_copy: case Intrinsic::annotation:
            return fin(a[0]);
        case Intrinsic::is_constant: return fin(V::con(1, 0));
        case Intrinsic::objectsize: return fin(V::con(w, ~(u128) 0));
        case Intrinsic::eh_typeid_for: {
            auto *g = dyn_cast<GlobalValue>(cb->getArgOperand(0)->stripPointerCasts());
            if (!g) return fin(V::con(32, 1));
            return fin(V::con(32, typeIdFor(globalAddr(s, g))));
        }
        case Intrinsic::trap: case Intrinsic::debugtrap: fail(s, "ub", "unreachable/trap", cb); return true;
        case Intrinsic::ubsantrap: {
            static char const *names[] = {"integer add overflow", "builtin unreachable", "cfi", "divrem overflow", "dynamic type cache miss", "float cast overflow", "function type mismatch", "implicit conversion", "invalid builtin", "invalid objc cast", "load of invalid value", "missing return", "integer mul overflow", "integer negate overflow", "nullability arg", "nullability return", "nonnull arg", "nonnull return", "out of bounds", "pointer overflow", "shift out of bounds", "integer sub overflow", "type mismatch", "alignment assumption", "vla bound"};
            u64 k = a[0].u();
            fail(s, "ub", std::string("no undefined behaviour: ") + (k < 25 ? names[k] : "?"), cb);
            return true;
        }
        case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: {
            if (a[0].sym) {
                auto id = fn->getIntrinsicID();
                z3::expr x = a[0].ex();
                z3::expr r = bvval(id == Intrinsic::ctpop ? 0 : w, w);
                if (id == Intrinsic::ctpop) for (unsigned k = 0; k < w; ++k) r = r + z3::zext(x.extract(k, k), w - 1);
                else if (id == Intrinsic::cttz) for (int k = (int) w - 1; k >= 0; --k) r = z3::ite(x.extract(k, k) == Z->bv_val(1, 1), bvval(k, w), r);
                else for (unsigned k = 0; k < w; ++k) r = z3::ite(x.extract(k, k) == Z->bv_val(1, 1), bvval(w - 1 - k, w), r);
                return fin(V::mk(w, r));
            }
            u128 x = a[0].c; unsigned n = 0;
            if (fn->getIntrinsicID() == Intrinsic::ctpop) { while (x) { n += (unsigned) (x & 1); x >>= 1; } }
            else if (fn->getIntrinsicID() == Intrinsic::cttz) { if (!x) n = w; else while (!(x & 1)) { ++n; x >>= 1; } }
            else { n = w; while (x) { --n; x >>= 1; } }
            return fin(V::con(w, n));
        }
        case Intrinsic::abs: return fin(iteV(icmp(CmpInst::ICMP_SLT, a[0], V::con(w, 0)), binop(s, Instruction::Sub, V::con(w, 0), a[0], cb), a[0]));
        case Intrinsic::umin: return fin(iteV(icmp(CmpInst::ICMP_ULT, a[0], a[1]), a[0], a[1]));
        case Intrinsic::umax: return fin(iteV(icmp(CmpInst::ICMP_UGT, a[0], a[1]), a[0], a[1]));
        case Intrinsic::smin: return fin(iteV(icmp(CmpInst::ICMP_SLT, a[0], a[1]), a[0], a[1]));
        case Intrinsic::smax: return fin(iteV(icmp(CmpInst::ICMP_SGT, a[0], a[1]), a[0], a[1]));
        case Intrinsic::bswap: {
            V r = truncV(a[0], 8);
            for (unsigned k = 1; k < w / 8; ++k) r = concatV(r, truncV(binop(s, Instruction::LShr, a[0], V::con(w, 8 * k), cb), 8));
            return fin(r);
        }
        case Intrinsic::fshl: case Intrinsic::fshr: {
            V x = concatV(a[0], a[1]);
            V sh = zextV(binop(s, Instruction::URem, a[2], V::con(w, w), cb), 2 * w);
            if (2 * w > 128 && !x.sym) throw Unsupported{"fsh"};
            if (fn->getIntrinsicID() == Intrinsic::fshl) {
                V y = binop(s, Instruction::Shl, x, sh, cb);
                return fin(truncV(binop(s, Instruction::LShr, y, V::con(2 * w, w), cb), w));
            }
            return fin(truncV(binop(s, Instruction::LShr, x, sh, cb), w));
        }
        case Intrinsic::uadd_sat: { V r = addV(a[0], a[1]); return fin(iteV(icmp(CmpInst::ICMP_ULT, r, a[0]), V::con(w, ~(u128) 0), r)); }
        case Intrinsic::usub_sat: return fin(iteV(icmp(CmpInst::ICMP_ULT, a[0], a[1]), V::con(w, 0), binop(s, Instruction::Sub, a[0], a[1], cb)));
        case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
        case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
            unsigned n = a[0].w;
            auto id = fn->getIntrinsicID();
            bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
            unsigned op = id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow ? Instruction::Add
                        : id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow ? Instruction::Sub : Instruction::Mul;
            V r = binop(s, op, a[0], a[1], cb);
            V ov;
            if (op == Instruction::Mul && !s.ranges.empty() && n <= 64 && (a[0].sym || a[1].sym)) { // decided by interval arithmetic if it can
                __int128 xl, xh, yl, yh;
                if (rangeOf(s, a[0], sg, xl, xh) && rangeOf(s, a[1], sg, yl, yh)) {
                    __int128 c[4] = {xl * yl, xl * yh, xh * yl, xh * yh};     // no overflow: signed factors have 63 bits, products of unsigned ones are compared as such
                    __int128 lo = c[0], hi = c[0];
                    bool in, out;
                    __int128 mn = sg ? -((__int128) 1 << (n - 1)) : 0, mx = sg ? ((__int128) 1 << (n - 1)) - 1 : ((__int128) 1 << n) - 1;
                    if (!sg) { u128 ul = (u128) xl * (u128) yl, uh = (u128) xh * (u128) yh; in = uh <= (u128) mx; out = ul > (u128) mx; lo = (__int128) ul; hi = (__int128) uh; }
                    else { for (auto v : c) { lo = std::min(lo, v); hi = std::max(hi, v); } in = lo >= mn && hi <= mx; out = lo > mx || hi < mn; }
                    if (in && r.sym) { V rs = simp(r); s.ranges.push_back({rs.ex(), sg, lo, hi}); r = rs; }
                    if (in || out) return fin(V::aggregate({r, V::con(1, out)}));
                }
            }
            if (!a[0].sym && !a[1].sym && n <= 64) {
                __int128 x = sg ? (__int128) sx(a[0]) : (__int128) a[0].c, y = sg ? (__int128) sx(a[1]) : (__int128) a[1].c;
                if (op == Instruction::Mul && !sg) { u128 p = (u128) x * (u128) y; ov = V::con(1, (p >> n) != 0); }
                else {
                    __int128 p = op == Instruction::Add ? x + y : op == Instruction::Sub ? x - y : x * y;
                    __int128 back = sg ? (__int128) sx(r) : (__int128) r.c;
                    ov = V::con(1, p != back);
                }
            } else {
                z3::expr x = a[0].ex(), y = a[1].ex();
                z3::expr e(*Z);
                if (op == Instruction::Mul) {
                    if (sg) e = !(z3::bvmul_no_overflow(x, y, true) && z3::bvmul_no_underflow(x, y));
                    else e = !z3::bvmul_no_overflow(x, y, false);
                } else if (op == Instruction::Add) {
                    if (sg) { z3::expr xx = z3::sext(x, 1), yy = z3::sext(y, 1); e = (xx + yy) != z3::sext(x + y, 1); }
                    else e = z3::ult(x + y, x);
                } else {
                    if (sg) { z3::expr xx = z3::sext(x, 1), yy = z3::sext(y, 1); e = (xx - yy) != z3::sext(x - y, 1); }
                    else e = z3::ult(x, y);
                }
                ov = V::mk(1, e.simplify());
            }
            return fin(V::aggregate({r, ov}));
        }
        default:
            throw Unsupported{"intrinsic " + sname(fn)};
    }
}

static bool startsWith(std::string const &s, char const *p) { return s.rfind(p, 0) == 0; }

bool Engine::callExternal(State &s, CallBase *cb, Function *fn, std::vector<V> const &a) {
    std::string n = sname(fn);
    auto fin = [&](V const &v) { finishCall(s, cb, v); return true; };
    unsigned rw = cb->getType()->isVoidTy() || cb->getType()->isStructTy() ? 0 : bits(cb->getType());
    // ---------------- contract intrinsics
    if (startsWith(n, "vf_")) {
        if (startsWith(n, "vf_any_")) {
            std::string nm = cstr(s, a[0]);
            V v;
            if (n == "vf_any_range") { // (name, lo, hi) 64-bit unsigned inclusive
                v = freshV(nm, 64);
                z3::expr c = z3::uge(v.e, a[1].ex()) && z3::ule(v.e, a[2].ex());
                s.tape.push_back({nm, 64, v});
                if (check(s, c) == 0) throw PathEnd{"infeasible"};
                add(s, c);
            } else { v = freshV(nm, rw); s.tape.push_back({nm, rw, v}); }
            return fin(v);
        }
        if (n == "vf_choose") { // (name, n): forks into n concrete alternatives
            std::string nm = cstr(s, a[0]);
            u64 k = a[1].u();
            for (u64 j = k; j-- > 1;) {
                State o = s; o.forks++;
                V v = V::con(32, j);
                o.tape.push_back({nm, 32, v});
                finishCall(o, cb, v);
                work->push_back(std::move(o));
            }
            V v = V::con(32, 0);
            s.tape.push_back({nm, 32, v});
            return fin(v);
        }
        if (n == "vf_assume") {
            V c = simp(a[0]);
            if (!c.sym) { if (!c.c) throw PathEnd{"assume"}; return fin(V()); }
            bool val;
            if (modelSays(s, c.e, val) && val) { add(s, c.e); return fin(V()); }
            std::shared_ptr<z3::model> m;
            int r = check(s, c.e, &m);
            if (r == 0) throw PathEnd{"assume"};
            add(s, c.e); s.model = m;
            return fin(V());
        }
        if (n == "vf_assert") {
            if (!require(s, a[0], "ensures", cstr(s, a[1]), cb)) throw PathEnd{"assertion failed"};
            return fin(V());
        }
        if (n == "vf_cover") { std::string nm = cstr(s, a[0]); if (!quiet) covers[nm]++; return fin(V()); }
        if (n == "vf_uf") { // (tag, x) -> u64, functionally consistent arbitrary value
            std::string nm = cstr(s, a[0]);
            z3::func_decl f = Z->function(("uf." + nm).c_str(), Z->bv_sort(64), Z->bv_sort(64));
            V r = V::mk(64, f(a[1].bv()));
            s.tape.push_back({nm, 64, r});
            return fin(r);
        }
        if (n == "vf_index") { registerIndex(s, a[0]); return fin(V()); }
        if (n == "vf_value") { V v = simp(a[0]); s.valueTerms.push_back(v); return fin(V()); }
        if (n == "vf_atomic_hooks") {
            auto b = addrFn.find(a[0].u()), c = addrFn.find(a[1].u());
            s.hookBefore = a[0].u() && b != addrFn.end() ? b->second : nullptr;
            s.hookAfter = a[1].u() && c != addrFn.end() ? c->second : nullptr;
            if (!s.hookBefore || !s.hookAfter) s.hookBefore = s.hookAfter = nullptr;
            return fin(V());
        }
        if (n == "vf_share_heap") { for (auto &[id, o] : s.mem) if (o->kind == Obj::Heap && o->alive) s.sharedObjs.insert(id); return fin(V()); }
        if (n == "vf_fact") { V v = simp(a[0]); if (v.sym) s.facts.push_back(v.e); return fin(V()); }
        if (n == "vf_candidate") { auto it = addrFn.find(a[0].u()); if (it == addrFn.end()) throw Unsupported{"vf_candidate"}; s.preds.push_back(it->second); return fin(V()); }
        if (n == "vf_function") { auto it = addrFn.find(a[0].u()); if (it == addrFn.end()) throw Unsupported{"vf_function"}; s.funcs.push_back(it->second); return fin(V()); }
        if (n == "vf_forget") { s.indexTerms.clear(); s.facts.clear(); s.valueTerms.clear(); s.preds.clear(); s.funcs.clear(); return fin(V()); }
        if (n == "vf_lemma_mul") { // (i, q, m): ring identities mod 2^64 and monotonicity of the exact product (proved over the integers)
            static bool proved = false;
            if (!proved) {
                z3::solver sv(*Z);
                z3::expr x = Z->int_const("lm.x"), y = Z->int_const("lm.y"), z = Z->int_const("lm.z");
                sv.add(x <= y && z >= 0 && x * z > y * z);
                if (sv.check() != z3::unsat) throw Unsupported{"vf_lemma_mul"};
                proved = true;
            }
            auto wide = [](V const &x) { return V::mk(128, z3::zext(x.ex(), 64).simplify()); };
            V im = product2(s, wide(a[0]), wide(a[2])), qm = product2(s, wide(a[1]), wide(a[2]));
            add(s, z3::implies(z3::ule(a[0].ex(), a[1].ex()), z3::ule(im.ex(), qm.ex())));
            return fin(V());
        }
        if (n == "vf_lemma_distrib") { // (a, b, m): (a+b)*m == a*m + b*m, exactly, if a+b does not wrap
            auto wide = [](z3::expr const &x) { return V::mk(128, z3::zext(x, 64).simplify()); };
            z3::expr x = a[0].ex(), y = a[1].ex();
            V xm = product2(s, wide(x), wide(a[2].ex())), ym = product2(s, wide(y), wide(a[2].ex())), sm = product2(s, wide((x + y).simplify()), wide(a[2].ex()));
            add(s, z3::implies(z3::bvadd_no_overflow(x, y, false), sm.ex() == xm.ex() + ym.ex()));
            return fin(V());
        }
        if (n == "vf_lemma_div") { // (i, m): quotients by m of numbers i*m apart, and of i*m - 1 (proved over the integers)
            static bool proved = false;
            if (!proved) { // x1 = q1*m + r1, x2 = q2*m + r2, x1 - x2 = i*m: (q1-q2-i)*m = r2-r1 lies within (-m, m)
                z3::solver sv(*Z);
                z3::expr k = Z->int_const("ld.k"), m = Z->int_const("ld.m"), d = Z->int_const("ld.d");
                sv.add(m > 0 && d < m && d > -m && k * m == d && k != 0);
                if (sv.check() != z3::unsat) throw Unsupported{"vf_lemma_div"};
                proved = true;
            }
            s.divHints.push_back({a[0].ex(), a[1].ex()});
            auto ds = s.divs;
            for (size_t x = 0; x < ds.size(); ++x) applyDivHint(s, s.divHints.back(), x, ds);
            return fin(V());
        }
        if (n == "vf_range") { // the value lies in [lo, hi] (signed or not): checked here, used to decide overflow of products
            bool sg = a[3].u();
            V v = simp(a[0]);
            if (!v.sym) return fin(V());
            z3::expr lo = a[1].bv(), hi = a[2].bv(), x = v.ex();
            if (a[1].sym || a[2].sym || check(s, !(sg ? z3::sle(lo, x) && z3::sle(x, hi) : z3::ule(lo, x) && z3::ule(x, hi))) != 0) throw Unsupported{"vf_range"};
            __int128 l = sg ? (__int128) sx(a[1]) : (__int128) a[1].c, h = sg ? (__int128) sx(a[2]) : (__int128) a[2].c;
            s.ranges.push_back({x, sg, l, h});
            // also what it was extended from
            unsigned w = x.get_sort().bv_size();
            std::vector<z3::expr> todo{x};
            for (size_t k = 0; k < todo.size() && todo.size() < 12; ++k) for (unsigned i = 0; i < todo[k].num_args(); ++i) {
                z3::expr y = todo[k].arg(i);
                if (!y.is_bv() || y.is_numeral()) continue;
                todo.push_back(y);
                unsigned m = y.get_sort().bv_size();
                if (m < w && check(s, (sg ? z3::sext(y, w - m) : z3::zext(y, w - m)) != x) == 0) s.ranges.push_back({y, sg, l, h});
            }
            return fin(V());
        }
        if (n == "vf_cycle") { if (cycle(s)) throw PathEnd{"same state as before"}; return fin(V()); }
        if (n == "vf_end_path") throw PathEnd{"ended by the harness"};
        if (n == "vf_symbolic_run") return fin(V::con(rw, 1));
        if (n == "vf_flag_get") { return fin(V::con(rw, (u128) s.flags[cstr(s, a[0])])); }
        if (n == "vf_flag_set") { s.flags[cstr(s, a[0])] = (int) a[1].u(); return fin(V()); }
        if (n == "vf_live_allocs") { u64 c = 0; for (auto &[id, o] : s.mem) if (o->alive && o->kind == Obj::Heap) ++c; return fin(V::con(rw, c)); }
        if (n == "vf_uncaught_base") { s.uncaughtBase = a[0]; return fin(V()); }
        if (n == "vf_ite_u64") return fin(iteV(a[0], a[1], a[2]));
        if (n == "vf_and") return fin(binop(s, Instruction::And, a[0], a[1], cb));
        if (n == "vf_or") return fin(binop(s, Instruction::Or, a[0], a[1], cb));
        if (n == "vf_mulhi_ovf") return fin(V::mk(1, (!z3::bvmul_no_overflow(a[0].ex(), a[1].ex(), false)).simplify()));
        if (n == "vf_decide") { bool b = decide(s, a[0]); return fin(V::con(1, b)); }
        if (n == "vf_dump") { std::cerr << "vf_dump " << cstr(s, a[0]) << " " << (a[1].sym ? a[1].e.to_string() : std::to_string(a[1].u())) << "\n"; return fin(V()); }
        if (n == "vf_is_dead") { // (ptr): true when ptr does not point into a live object
            V p = simp(a[0]);
            if (p.sym) throw Unsupported{"vf_is_dead symbolic"};
            auto it = s.mem.find((u32) (p.u() >> IDSHIFT));
            return fin(V::con(1, it == s.mem.end() || !it->second->alive));
        }
        throw Unsupported{"contract intrinsic " + n};
    }
    // ---------------- memory
    auto doAlloc = [&](V sz0, int tag, bool nothrow) -> bool {
        V sz = simp(sz0);
        if (sz.sym) {
            // a request beyond the model's object limit fails like any allocator would
            bool big = decide(s, V::mk(1, z3::uge(sz.ex(), Z->bv_val((uint64_t) 1 << 40, 64)).simplify()));
            if (big) { if (nothrow) { fin(V::con(64, 0)); return true; } throwStd(s, "_ZTISt9bad_alloc", cb); return true; }
        } else if (sz.c >= ((u64) 1 << 24)) {
            if (nothrow) { fin(V::con(64, 0)); return true; }
            throwStd(s, "_ZTISt9bad_alloc", cb); return true;
        }
        u32 id = alloc(s, sz, Obj::Heap, "heap", tag);
        fin(V::con(64, baseOf(id)));
        return true;
    };
    auto doFree = [&](V const &p0, int tag, V const *sz) -> bool {
        V p = simp(p0);
        if (p.sym) {
            bool z = decide(s, V::mk(1, (p.e == Z->bv_val(0, 64)).simplify()));
            if (z) return fin(V());
            throw Unsupported{"free of symbolic pointer"};
        }
        if (p.c == 0) return fin(V());
        u32 id = (u32) (p.u() >> IDSHIFT);
        auto it = s.mem.find(id);
        if (it == s.mem.end() || it->second->kind != Obj::Heap || p.u() != baseOf(id)) fail(s, "memory", "free of a pointer that was not allocated", cb);
        if (!it->second->alive) fail(s, "memory", "double free", cb);
        if (!require(s, V::con(1, it->second->allocTag == tag), "memory", "deallocation function matches allocation", cb)) throw PathEnd{"mismatch"};
        if (sz) {
            V eq = icmp(CmpInst::ICMP_EQ, *sz, it->second->size);
            if (!require(s, eq, "memory", "sized deallocation matches allocation", cb)) throw PathEnd{"size mismatch"};
        }
        Obj &o = mut(s, id); o.alive = false; o.bytes.clear(); o.st.clear(); o.syms.clear();
        return fin(V());
    };
    if (n == "malloc") return doAlloc(a[0], 1, true);
    if (n == "_Znwm" || n == "_ZnwmSt11align_val_t") return doAlloc(a[0], 2, false);
    if (n == "_Znam" || n == "_ZnamSt11align_val_t") return doAlloc(a[0], 3, false);
    if (n == "_ZnwmRKSt9nothrow_t") return doAlloc(a[0], 2, true);
    if (n == "_ZnamRKSt9nothrow_t") return doAlloc(a[0], 3, true);
    if (n == "free") return doFree(a[0], 1, nullptr);
    if (n == "_ZdlPv" || n == "_ZdlPvSt11align_val_t" || n == "_ZdlPvRKSt9nothrow_t") return doFree(a[0], 2, nullptr);
    if (n == "_ZdlPvm" || n == "_ZdlPvmSt11align_val_t") return doFree(a[0], 2, &a[1]);
    if (n == "_ZdaPv" || n == "_ZdaPvSt11align_val_t" || n == "_ZdaPvRKSt9nothrow_t") return doFree(a[0], 3, nullptr);
    if (n == "_ZdaPvm" || n == "_ZdaPvmSt11align_val_t") return doFree(a[0], 3, &a[1]);
    if (n == "memcpy" || n == "memmove") { memCopy(s, a[0], a[1], a[2], cb); return fin(a[0]); }
    if (n == "wmemcpy" || n == "wmemmove") { memCopy(s, a[0], a[1], binop(s, Instruction::Mul, a[2], V::con(64, 4), cb), cb); return fin(a[0]); }
    if (n == "memset") { memSet(s, a[0], truncV(a[1], 8), a[2], cb); return fin(a[0]); }
    if (n == "memcmp" || n == "bcmp" || n == "wmemcmp") {
        unsigned es = n == "wmemcmp" ? 4 : 1;
        V len = simp(a[2]);
        if (len.sym && s.flags["contract_memcmp"]) {
            // contract of memcmp: the sign of the difference at the first differing index, 0 if there is none
            V bytes = es == 1 ? len : V::mk(64, (len.ex() * Z->bv_val(4, 64)).simplify());
            if (decide(s, V::mk(1, (len.ex() == Z->bv_val(0, 64)).simplify()))) return fin(V::con(32, 0));
            Place pa = resolve(s, a[0], bytes, cb, false, "compare left"), pb = resolve(s, a[1], bytes, cb, false, "compare right");
            CmpCall c;
            c.a = logOf(s, pa.id); c.b = logOf(s, pb.id); c.ao = pa.off.ex(); c.bo = pb.off.ex(); c.len = len.ex(); c.es = es;
            for (auto &o : s.cmpCalls)
                if (o.a.get() == c.a.get() && o.b.get() == c.b.get() && o.es == c.es && z3::eq(o.ao, c.ao) && z3::eq(o.bo, c.bo) && z3::eq(o.len, c.len)) return fin(V::mk(32, o.r));
            c.r = freshBV("memcmp", 32); c.d = freshBV("memcmp.first", 64);
            z3::expr zero = Z->bv_val(0, 32);
            z3::expr x = cmpAt(c, true, c.d), y = cmpAt(c, false, c.d);
            z3::expr lt = es == 4 ? z3::slt(x, y) : z3::ult(x, y);
            add(s, z3::ite(c.r == zero, Z->bool_val(true), z3::ult(c.d, c.len) && x != y && c.r == z3::ite(lt, Z->bv_val(-1, 32), Z->bv_val(1, 32))));
            for (auto &t : s.indexTerms) add(s, cmpInst(c, t.ex()));
            s.cmpCalls.push_back(c);
            registerIndex(s, V::mk(64, c.d));
            s.model.reset();
            return fin(V::mk(32, c.r));
        }
        u64 k = concOff(s, len);
        V r = V::con(32, 0);
        std::vector<std::pair<V, V>> prs;
        Type *et = es == 4 ? Type::getInt32Ty(M.getContext()) : Type::getInt8Ty(M.getContext());
        for (u64 j = 0; j < k; ++j)
            prs.push_back({memLoad(s, addV(a[0], V::con(64, j * es)), et, cb), memLoad(s, addV(a[1], V::con(64, j * es)), et, cb)});
        for (u64 j = k; j-- > 0;) {
            auto &[x, y] = prs[j];
            V lt = icmp(es == 4 ? CmpInst::ICMP_SLT : CmpInst::ICMP_ULT, x, y), eq = icmp(CmpInst::ICMP_EQ, x, y);
            r = iteV(eq, r, iteV(lt, V::con(32, (u32) -1), V::con(32, 1)));
        }
        return fin(r);
    }
    if (n == "strlen") {
        u64 k = 0;
        while (true) {
            V b = memLoad(s, addV(a[0], V::con(64, k)), Type::getInt8Ty(M.getContext()), cb);
            V z = icmp(CmpInst::ICMP_EQ, b, V::con(8, 0));
            if (z.sym) throw Unsupported{"strlen symbolic"};
            if (z.c) break;
            ++k;
        }
        return fin(V::con(64, k));
    }
    // ---------------- exceptions ABI
    if (n == "__cxa_allocate_exception") {
        u32 id = alloc(s, V::con(64, std::max<u64>(64, a[0].u())), Obj::Exc, "exception");
        return fin(V::con(64, baseOf(id)));
    }
    if (n == "__cxa_free_exception") { mut(s, (u32) (a[0].u() >> IDSHIFT)).alive = false; return fin(V()); }
    if (n == "__cxa_throw") {
        Exc e; e.ptr = a[0].u(); e.tinfo = a[1].u(); e.dtor = a[2].u();
        s.excs.push_back(e);
        s.uncaught++;
        throwExc(s, e.ptr, cb);
        return true;
    }
    if (n == "__cxa_begin_catch") {
        Exc *e = findExc(s, a[0].u());
        if (!e) throw Unsupported{"begin_catch"};
        e->handlers = e->handlers < 0 ? -e->handlers + 1 : e->handlers + 1;
        s.uncaught--;
        s.inflight = 0;
        s.caught.push_back(e->ptr);
        return fin(a[0]);
    }
    if (n == "__cxa_end_catch") {
        if (s.caught.empty()) return fin(V());
        u64 p = s.caught.back();
        Exc *e = findExc(s, p);
        if (e->handlers < 0) {
            if (++e->handlers == 0) s.caught.pop_back();
            return fin(V());
        }
        if (--e->handlers == 0) {
            s.caught.pop_back();
            if (e->dtor) {
                auto it = addrFn.find(e->dtor);
                if (it != addrFn.end() && !it->second->isDeclaration()) {
                    pushFrame(s, it->second, {V::con(64, p)}, cb, Frame::EndCatch);
                    s.fr.back().excToFree = p;
                    return true;
                }
            }
            freeExc(s, p);
        }
        else if (!s.caught.empty() && s.caught.back() == p) s.caught.pop_back();
        return fin(V());
    }
    if (n == "__cxa_rethrow") {
        if (s.caught.empty()) fail(s, "exception", "rethrow without exception", cb);
        u64 p = s.caught.back();
        Exc *e = findExc(s, p);
        e->handlers = -e->handlers;
        s.uncaught++;
        throwExc(s, p, cb);
        return true;
    }
    if (n == "__cxa_get_exception_ptr") return fin(a[0]);
    if (n == "_ZSt19uncaught_exceptionsv") {
        V b = s.uncaughtBase.w ? s.uncaughtBase : V::con(32, 0);
        return fin(addV(b, V::con(32, (u32) s.uncaught)));
    }
    if (n == "_ZSt18uncaught_exceptionv") {
        V b = s.uncaughtBase.w ? s.uncaughtBase : V::con(32, 0);
        return fin(icmp(CmpInst::ICMP_NE, addV(b, V::con(32, (u32) s.uncaught)), V::con(32, 0)));
    }
    if (n == "_ZSt9terminatev" || n == "abort" || n == "__cxa_call_terminate") fail(s, "exception", "std::terminate is not called", cb);
    if (n == "__cxa_call_unexpected") fail(s, "exception", "exception specification holds", cb);
    if (n == "__assert_fail" || n == "_ZSt21__glibcxx_assert_failPKciS0_S0_") fail(s, "assert", "assertion " + cstr(s, n == "__assert_fail" ? a[0] : a[3]), cb);
    if (n == "__cxa_pure_virtual") fail(s, "ub", "pure virtual call", cb);
    if (n == "__cxa_guard_acquire") {
        u64 g = a[0].u();
        if (s.guards[g]) return fin(V::con(32, 0));
        return fin(V::con(32, 1));
    }
    if (n == "__cxa_guard_release") { s.guards[a[0].u()] = 1; memStore(s, a[0], V::con(8, 1), Type::getInt8Ty(M.getContext()), cb); return fin(V()); }
    if (n == "__cxa_guard_abort") return fin(V());
    if (n == "__cxa_atexit" || n == "atexit" || n == "__cxa_thread_atexit") return fin(V::con(32, 0));
    if (startsWith(n, "_ZSt") && n.find("__throw_") != std::string::npos) {
        static std::vector<std::pair<char const *, char const *>> t{
            {"__throw_length_error", "_ZTISt12length_error"}, {"__throw_out_of_range", "_ZTISt12out_of_range"},
            {"__throw_bad_array_new_length", "_ZTISt20bad_array_new_length"}, {"__throw_bad_alloc", "_ZTISt9bad_alloc"},
            {"__throw_invalid_argument", "_ZTISt16invalid_argument"}, {"__throw_logic_error", "_ZTISt11logic_error"},
            {"__throw_bad_function_call", "_ZTISt17bad_function_call"}, {"__throw_bad_variant_access", "_ZTISt18bad_variant_access"},
            {"__throw_bad_optional_access", "_ZTISt19bad_optional_access"}, {"__throw_system_error", "_ZTISt12system_error"},
            {"__throw_bad_cast", "_ZTISt8bad_cast"}, {"__throw_bad_weak_ptr", "_ZTISt12bad_weak_ptr"}, {"__throw_runtime_error", "_ZTISt13runtime_error"}};
        for (auto &[k, ti] : t) if (n.find(k) != std::string::npos) { throwStd(s, ti, cb); return true; }
    }
    // constructors/destructors/what of the standard exception classes: no observable state we need
    {
        std::string d = llvm::demangle(n);
        if (startsWith(d, "std::")) {
            static char const *classes[] = {"exception", "runtime_error", "logic_error", "length_error", "invalid_argument", "out_of_range", "overflow_error", "underflow_error", "domain_error", "range_error", "bad_alloc", "bad_cast", "bad_array_new_length", "bad_variant_access", "bad_optional_access", "bad_function_call", "system_error", "format_error", "ios_base::Init"};
            for (auto *cl : classes) {
                std::string p = std::string("std::") + cl + "::";
                if (startsWith(d, p.c_str())) { builtins["std exception member (no-op)"]++; return fin(rw ? V::con(rw, 0) : V()); }
            }
        }
        if (d == "std::_V2::system_category()" || d == "std::_V2::generic_category()") return fin(V::con(64, extGlobal(s, "vf.category")));
    }
    if (n == "__errno_location") return fin(V::con(64, extGlobal(s, "vf.errno")));
    return false;
}

void Engine::step(State &s) {
    Frame &f = s.fr.back();
    Instruction *I = &*f.pc;
    ++nSteps;
    if (++s.steps > opt.stepLimit) { fail(s, "termination", "step bound", I); }
    switch (I->getOpcode()) {
        case Instruction::Alloca: {
            auto *ai = cast<AllocaInst>(I);
            V cnt = eval(s, ai->getArraySize());
            u64 n = DL.getTypeAllocSize(ai->getAllocatedType());
            if (cnt.sym) throw Unsupported{"symbolic alloca"};
            u32 id = alloc(s, V::con(64, n * cnt.u()), Obj::Stack, ai->getName().str());
            s.fr.back().allocas.push_back(id);
            s.fr.back().allocaOf.push_back({ai, id});
            set(s, I, V::con(64, baseOf(id)));
            break;
        }
        case Instruction::Load: {
            auto *l = cast<LoadInst>(I);
            V p = eval(s, l->getPointerOperand());
            if (s.hookBefore) { if (l->isAtomic()) { if (!atomicBefore(s, p)) return; } else plainAccess(s, p, false, I, DL.getTypeStoreSize(l->getType())); }
            V v = memLoad(s, p, l->getType(), I);
            set(s, I, v);
            if (l->isAtomic() && s.fr.back().hooked) { atomicAfter(s, p, v, v); return; }
            break;
        }
        case Instruction::Store: {
            auto *st = cast<StoreInst>(I);
            V p = eval(s, st->getPointerOperand()), nv = eval(s, st->getValueOperand());
            if (s.hookBefore) { if (st->isAtomic()) { if (!atomicBefore(s, p)) return; } else plainAccess(s, p, true, I, DL.getTypeStoreSize(st->getValueOperand()->getType())); }
            V old = st->isAtomic() && s.fr.back().hooked ? memLoad(s, p, st->getValueOperand()->getType(), I) : V();
            memStore(s, p, nv, st->getValueOperand()->getType(), I);
            if (st->isAtomic() && s.fr.back().hooked) { atomicAfter(s, p, old, nv); return; }
            break;
        }
        case Instruction::GetElementPtr: {
            auto *g = cast<GetElementPtrInst>(I);
            V p = eval(s, g->getPointerOperand());
            if (p.isAgg()) throw Unsupported{"vector gep"};
            u64 c = 0;
            for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
                if (auto *st = it.getStructTypeOrNull()) {
                    c += DL.getStructLayout(st)->getElementOffset((unsigned) cast<ConstantInt>(it.getOperand())->getZExtValue());
                } else {
                    V ix = eval(s, it.getOperand());
                    u64 es = DL.getTypeAllocSize(it.getIndexedType());
                    V i64 = ix.w < 64 ? sextV(ix, 64) : truncV(ix, 64);
                    if (!i64.sym) c += i64.u() * es;
                    else p = addV(p, es == 1 ? i64 : V::mk(64, (i64.ex() * Z->bv_val((uint64_t) es, 64)).simplify()));
                }
            }
            set(s, I, addV(p, V::con(64, c)));
            break;
        }
        case Instruction::ICmp: {
            auto *c = cast<ICmpInst>(I);
            set(s, I, icmp(c->getPredicate(), eval(s, c->getOperand(0)), eval(s, c->getOperand(1))));
            break;
        }
        case Instruction::FCmp: {
            auto *c = cast<FCmpInst>(I);
            V a = eval(s, c->getOperand(0)), b = eval(s, c->getOperand(1));
            if (a.sym || b.sym) throw Unsupported{"symbolic fcmp"};
            double x, y;
            if (a.w == 64) { u64 t = a.u(); memcpy(&x, &t, 8); t = b.u(); memcpy(&y, &t, 8); }
            else { float p; u32 t = (u32) a.u(); memcpy(&p, &t, 4); x = p; t = (u32) b.u(); memcpy(&p, &t, 4); y = p; }
            bool uno = x != x || y != y, r = false;
            switch (c->getPredicate()) {
                case CmpInst::FCMP_OEQ: r = !uno && x == y; break; case CmpInst::FCMP_UEQ: r = uno || x == y; break;
                case CmpInst::FCMP_ONE: r = !uno && x != y; break; case CmpInst::FCMP_UNE: r = uno || x != y; break;
                case CmpInst::FCMP_OLT: r = !uno && x < y; break; case CmpInst::FCMP_ULT: r = uno || x < y; break;
                case CmpInst::FCMP_OLE: r = !uno && x <= y; break; case CmpInst::FCMP_ULE: r = uno || x <= y; break;
                case CmpInst::FCMP_OGT: r = !uno && x > y; break; case CmpInst::FCMP_UGT: r = uno || x > y; break;
                case CmpInst::FCMP_OGE: r = !uno && x >= y; break; case CmpInst::FCMP_UGE: r = uno || x >= y; break;
                case CmpInst::FCMP_ORD: r = !uno; break; case CmpInst::FCMP_UNO: r = uno; break;
                default: break;
            }
            set(s, I, V::con(1, r));
            break;
        }
        case Instruction::Select: {
            V c = eval(s, I->getOperand(0));
            set(s, I, iteV(c, eval(s, I->getOperand(1)), eval(s, I->getOperand(2))));
            break;
        }
        case Instruction::Trunc: set(s, I, truncV(eval(s, I->getOperand(0)), bits(I->getType()))); break;
        case Instruction::ZExt: set(s, I, zextV(eval(s, I->getOperand(0)), bits(I->getType()))); break;
        case Instruction::SExt: set(s, I, sextV(eval(s, I->getOperand(0)), bits(I->getType()))); break;
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: {
            V v = eval(s, I->getOperand(0));
            unsigned w = bits(I->getType());
            set(s, I, w < v.w ? truncV(v, w) : zextV(v, w));
            break;
        }
        case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::FPExt: case Instruction::FPTrunc: {
            V v = eval(s, I->getOperand(0));
            if (v.sym) throw Unsupported{"symbolic float conversion"};
            unsigned w = bits(I->getType());
            auto getd = [&] { if (v.w == 64) { double d; u64 t = v.u(); memcpy(&d, &t, 8); return d; } float d; u32 t = (u32) v.u(); memcpy(&d, &t, 4); return (double) d; };
            auto putd = [&](double d) { if (w == 64) { u64 t; memcpy(&t, &d, 8); return V::con(64, t); } float fl = (float) d; u32 t; memcpy(&t, &fl, 4); return V::con(32, t); };
            switch (I->getOpcode()) {
                case Instruction::UIToFP: set(s, I, putd((double) v.u())); break;
                case Instruction::SIToFP: set(s, I, putd((double) (int64_t) sx(v))); break;
                case Instruction::FPToUI: set(s, I, V::con(w, (u64) getd())); break;
                case Instruction::FPToSI: set(s, I, V::con(w, (u128) (__int128) getd())); break;
                default: set(s, I, putd(getd())); break;
            }
            break;
        }
        case Instruction::FNeg: {
            V v = eval(s, I->getOperand(0));
            set(s, I, binop(s, Instruction::Xor, v, V::con(v.w, (u128) 1 << (v.w - 1)), I));
            break;
        }
        case Instruction::ExtractValue: {
            auto *e = cast<ExtractValueInst>(I);
            V v = eval(s, e->getAggregateOperand());
            for (unsigned k : e->indices()) { V t = (*v.agg)[k]; v = t; }
            set(s, I, v);
            break;
        }
        case Instruction::InsertValue: {
            auto *e = cast<InsertValueInst>(I);
            V v = eval(s, e->getAggregateOperand());
            V x = eval(s, e->getInsertedValueOperand());
            std::function<V(V const &, ArrayRef<unsigned>)> ins = [&](V const &ag, ArrayRef<unsigned> ix) -> V {
                if (ix.empty()) return x;
                std::vector<V> xs = *ag.agg;
                xs[ix[0]] = ins(xs[ix[0]], ix.drop_front());
                return V::aggregate(std::move(xs));
            };
            set(s, I, ins(v, e->getIndices()));
            break;
        }
        case Instruction::Freeze: set(s, I, eval(s, I->getOperand(0))); break;
        case Instruction::Fence: break;
        case Instruction::AtomicRMW: {
            auto *r = cast<AtomicRMWInst>(I);
            V p = eval(s, r->getPointerOperand()), v = eval(s, r->getValOperand());
            Type *t = r->getValOperand()->getType();
            if (!atomicBefore(s, p)) return;
            V old = memLoad(s, p, t, I);
            V nv;
            switch (r->getOperation()) {
                case AtomicRMWInst::Xchg: nv = v; break;
                case AtomicRMWInst::Add: nv = binop(s, Instruction::Add, old, v, I); break;
                case AtomicRMWInst::Sub: nv = binop(s, Instruction::Sub, old, v, I); break;
                case AtomicRMWInst::And: nv = binop(s, Instruction::And, old, v, I); break;
                case AtomicRMWInst::Or: nv = binop(s, Instruction::Or, old, v, I); break;
                case AtomicRMWInst::Xor: nv = binop(s, Instruction::Xor, old, v, I); break;
                default: throw Unsupported{"atomicrmw"};
            }
            memStore(s, p, nv, t, I);
            set(s, I, old);
            if (s.fr.back().hooked) { atomicAfter(s, p, old, nv); return; }
            break;
        }
        case Instruction::AtomicCmpXchg: {
            auto *c = cast<AtomicCmpXchgInst>(I);
            V p = eval(s, c->getPointerOperand()), ex = eval(s, c->getCompareOperand()), nv = eval(s, c->getNewValOperand());
            Type *t = c->getNewValOperand()->getType();
            if (!atomicBefore(s, p)) return;
            V old = memLoad(s, p, t, I);
            V eq = icmp(CmpInst::ICMP_EQ, old, ex);
            // a weak exchange may fail spuriously
            V ok = eq;
            if (c->isWeak() && (s.flags["weak_cas"] || s.fr.back().hooked)) {
                V sp = freshV("spurious", 1);
                s.tape.push_back({"spurious", 1, sp});
                ok = V::mk(1, (eq.ex() && !sp.e).simplify());
            }
            V now = iteV(ok, nv, old);
            memStore(s, p, now, t, I);
            set(s, I, V::aggregate({old, ok}));
            if (s.fr.back().hooked) { atomicAfter(s, p, old, now); return; }
            break;
        }
        case Instruction::Br: {
            auto *b = cast<BranchInst>(I);
            if (b->isUnconditional()) { if (!jump(s, b->getSuccessor(0))) throw PathEnd{"stopped"}; return; }
            bool c = decide(s, eval(s, b->getCondition()));
            if (!jump(s, b->getSuccessor(c ? 0 : 1))) throw PathEnd{"stopped"};
            return;
        }
        case Instruction::Switch: {
            auto *sw = cast<SwitchInst>(I);
            V v = eval(s, sw->getCondition());
            for (auto &c : sw->cases()) {
                V eq = icmp(CmpInst::ICMP_EQ, v, V::con(v.w, c.getCaseValue()->getZExtValue()));
                if (decide(s, eq)) { if (!jump(s, c.getCaseSuccessor())) throw PathEnd{"stopped"}; return; }
            }
            if (!jump(s, sw->getDefaultDest())) throw PathEnd{"stopped"};
            return;
        }
        case Instruction::Ret: {
            auto *r = cast<ReturnInst>(I);
            V v = r->getReturnValue() ? eval(s, r->getReturnValue()) : V();
            doReturn(s, v);
            return;
        }
        case Instruction::Unreachable: fail(s, "ub", "unreachable code is not reached", I); return;
        case Instruction::Resume: {
            V v = eval(s, I->getOperand(0));
            s.inflight = (*v.agg)[0].u();
            unwind(s, I);
            return;
        }
        case Instruction::Call: case Instruction::Invoke: {
            auto *cb = cast<CallBase>(I);
            if (cb->isInlineAsm()) { finishCall(s, cb, cb->getType()->isVoidTy() ? V() : freshV("asm", bits(cb->getType()))); return; }
            Function *fn = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
            if (!fn) if (auto *al = dyn_cast<GlobalAlias>(cb->getCalledOperand()->stripPointerCasts())) fn = dyn_cast<Function>(al->getAliasee()->stripPointerCasts());
            if (!fn) {
                V p = simp(eval(s, cb->getCalledOperand()));
                if (p.sym) throw Unsupported{"symbolic function pointer"};
                auto it = addrFn.find(p.u());
                if (it == addrFn.end()) fail(s, "memory", "call through invalid function pointer", I);
                fn = it->second;
            }
            std::vector<V> args;
            bool isdbg = fn->isIntrinsic() && (isa<DbgInfoIntrinsic>(I));
            if (!isdbg)
                for (auto &o : cb->args()) { if (o->getType()->isMetadataTy()) args.push_back(V()); else args.push_back(eval(s, o)); }
            if (fn->isIntrinsic()) { intrinsic(s, cb, fn, args); return; }
            if (Function *st = stubOf(fn)) { builtins["stub " + llvm::demangle(fn->getName().str())]++; pushFrame(s, st, std::move(args), cb); return; }
            if (fn->isDeclaration() || startsWith(fn->getName().str(), "vf_any_")) {
                if (!callExternal(s, cb, fn, args)) throw Unsupported{"external function " + llvm::demangle(fn->getName().str())};
                return;
            }
            if (fn->getName() == "__clang_call_terminate") fail(s, "exception", "no exception escapes a noexcept function", I);
            pushFrame(s, fn, std::move(args), cb);
            return;
        }
        default:
            if (I->isBinaryOp()) { set(s, I, binop(s, I->getOpcode(), eval(s, I->getOperand(0)), eval(s, I->getOperand(1)), I)); break; }
            throw Unsupported{std::string("instruction ") + I->getOpcodeName()};
    }
    ++s.fr.back().pc;
}

void Engine::runPath(State &s) {
    std::string why;
    try {
        while (true) {
            if ((nSteps & 1023) == 0 && elapsed() > opt.timeLimit) { timedOut = true; why = "time limit"; break; }
            step(s);
        }
    } catch (PathEnd &e) { why = e.why; }
    catch (Unsupported &u) { why = "unsupported: " + u.why; if (!quiet) {
        std::string bt; auto b = backtrace(s); for (size_t k = 0; k < b.size() && k < 4; ++k) bt += " < " + b[k];
        unsupported.insert(u.why + bt); } }
    catch (z3::exception &e) { why = std::string("solver: ") + e.msg(); if (!quiet) unsupported.insert(why); }
    if (!quiet) { endReasons[why]++; if (why == "done") nPaths++; }
}

void Engine::exploreAll(State s0) {
    std::vector<State> w;
    auto *saved = work;
    work = &w;
    w.push_back(std::move(s0));
    u64 n = 0;
    while (!w.empty()) {
        if (timedOut || ++n > opt.pathLimit) { timedOut = true; break; }
        State s = std::move(w.back());
        w.pop_back();
        runPath(s);
    }
    work = saved;
}
#include "loops.inc"

void Engine::report(std::ostream &o, std::string const &entry) {
    u64 refuted = 0, undecided = 0, total = 0, ok = 0;
    o << "{\n \"entry\": \"" << jesc(entry) << "\",\n \"obligations\": [\n";
    bool first = true;
    for (auto &[k, b] : obls) {
        total++;
        char const *st = b.refuted ? "refuted" : b.unknown ? "undecided" : "discharged";
        if (b.refuted) refuted++; else if (b.unknown) undecided++; else ok++;
        if (!first) o << ",\n";
        first = false;
        o << "  {\"name\": \"" << jesc(b.name) << "\", \"kind\": \"" << b.kind << "\", \"loc\": \"" << jesc(b.loc) << "\", \"function\": \"" << jesc(b.func.substr(0, 200)) << "\", \"status\": \"" << st
          << "\", \"vcs\": " << b.checks << ", \"by_simplification\": " << b.trivially << ", \"by_z3\": " << b.proved << ", \"refuted\": " << b.refuted << ", \"unknown\": " << b.unknown
          << ", \"abstracted\": " << (b.abstracted ? "true" : "false");
        if (!b.tapes.empty()) {
            o << ", \"tapes\": [";
            for (size_t j = 0; j < b.tapes.size(); ++j) o << (j ? "," : "") << b.tapes[j];
            o << "], \"trace\": [";
            for (size_t j = 0; j < b.trace.size(); ++j) o << (j ? "," : "") << "\"" << jesc(b.trace[j]) << "\"";
            o << "]";
        }
        o << "}";
    }
    o << "\n ],\n \"total\": " << total << ", \"discharged\": " << ok << ", \"refuted\": " << refuted << ", \"undecided\": " << undecided << ",\n";
    o << " \"complete\": " << (timedOut || !unsupported.empty() ? "false" : "true") << ", \"timed_out\": " << (timedOut ? "true" : "false") << ",\n \"unsupported\": [";
    first = true;
    for (auto &u : unsupported) { o << (first ? "" : ",") << "\"" << jesc(u) << "\""; first = false; }
    o << "],\n \"covers\": {";
    first = true;
    for (auto &[k, v] : covers) { o << (first ? "" : ",") << "\"" << jesc(k) << "\": " << v; first = false; }
    o << "},\n \"path_ends\": {";
    first = true;
    for (auto &[k, v] : endReasons) { o << (first ? "" : ",") << "\"" << jesc(k) << "\": " << v; first = false; }
    o << "},\n \"invariants\": [";
    first = true;
    for (auto &k : invReport) { o << (first ? "" : ",") << "\"" << jesc(k) << "\""; first = false; }
    o << "],\n \"functions\": {";
    first = true;
    for (auto &[k, v] : funcs) {
        o << (first ? "" : ",") << "\n  \"" << jesc(k) << "\": [";
        bool f2 = true;
        for (auto &x : v) { o << (f2 ? "" : ",") << "\"" << jesc(x.substr(0, 300)) << "\""; f2 = false; }
        o << "]"; first = false;
    }
    o << "},\n \"paths\": " << nPaths << ", \"steps\": " << nSteps << ", \"queries\": " << nQueries << ", \"cvc5_queries\": " << nCvc5 << ", \"cvc5_unsat\": " << nCvc5Unsat << ", \"loop_cuts\": " << nCuts
      << ", \"solver_s\": " << solverTime << ", \"max_query_s\": " << maxQuery << ", \"wall_s\": " << elapsed() << ", \"unknown_branches\": " << nUnknownBranch << "\n}\n";
}
} // namespace vfy

using namespace vfy;
int main(int argc, char **argv) {
    std::string bc, entry, out;
    Options opt;
    bool list = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nx = [&] { return std::string(argv[++i]); };
        if (a == "--entry") entry = nx();
        else if (a == "--out") out = nx();
        else if (a == "--time") opt.timeLimit = std::stod(nx());
        else if (a == "--query-ms") opt.queryMs = (unsigned) std::stoul(nx());
        else if (a == "--steps") opt.stepLimit = std::stoull(nx());
        else if (a == "--no-inductive") opt.inductive = false;
        else if (a == "--loop-bound") opt.loopBound = (unsigned) std::stoul(nx());
        else if (a == "--cut-after") opt.cutAfter = (unsigned) std::stoul(nx());
        else if (a == "--list") list = true;
        else if (a == "-v") opt.verbose = true;
        else bc = a;
    }
    LLVMContext ctx;
    SMDiagnostic err;
    auto M = parseIRFile(bc, err, ctx);
    if (!M) { err.print("vfy", errs()); return 2; }
    if (list) {
        for (auto &f : *M) if (!f.isDeclaration() && f.getName().starts_with("vfh_")) std::cout << f.getName().str() << "\n";
        return 0;
    }
    z3::context zc;
    Z = &zc;
    {
        Engine E(*M, opt);
        Function *fn = M->getFunction(entry);
        if (!fn || fn->isDeclaration()) { std::cerr << "no entry " << entry << "\n"; return 2; }
        State s;
        // dynamic initialisers of the harness module
        std::vector<Function *> ctors;
        if (auto *g = M->getNamedGlobal("llvm.global_ctors"); g && g->hasInitializer())
            if (auto *ca = dyn_cast<ConstantArray>(g->getInitializer()))
                for (auto &o : ca->operands())
                    if (auto *cs = dyn_cast<ConstantStruct>(o)) if (auto *f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back(f);
        std::vector<State> w;
        E.work = &w;
        bool okc = true;
        for (auto *c : ctors) {
            E.pushFrame(s, c, {}, nullptr, Frame::Top);
            E.quiet = true;
            try { while (true) E.step(s); }
            catch (PathEnd &e) { if (e.why != "done") { std::cerr << "ctor: " << e.why << "\n"; okc = false; } }
            catch (Unsupported &u) { std::cerr << "ctor " << c->getName().str() << ": " << u.why << "\n"; while (!s.fr.empty()) E.popFrame(s); }
            E.quiet = false;
            s.steps = 0;
        }
        (void) okc;
        E.seenFn.clear();
        E.nSteps = 0;
        E.pushFrame(s, fn, {}, nullptr, Frame::Top);
        E.exploreAll(std::move(s));
        if (out.empty()) { E.report(std::cout, entry); std::cout.flush(); }
        else { std::ofstream o(out); E.report(o, entry); }
        _exit(0);
    }
}
