// Inductive treatment of loops. A loop whose trip count is not determined on the current path
// is cut at its header: everything an iteration may write is havocked, an iteration counter t is
// introduced, and the strongest conjunction of candidate invariants that holds on entry and is
// preserved by every path through the body (Houdini) is assumed. The path that closes the loop
// ends; the path that leaves it goes on with only the invariant.

struct Engine::Nest {
    u64 uid; size_t depth; BasicBlock *header; Loop const *loop;
    std::vector<State> ends;
    u64 exits = 0;
    bool bad = false;
};

// explores all paths from s0 up to the next arrival at the header
bool Engine::exploreIteration(State s0, Nest &n) {
    std::vector<State> w;
    auto *saved = work;
    auto *savedNest = nest;
    bool savedQuiet = quiet;
    work = &w; nest = &n; quiet = true;
    w.push_back(std::move(s0));
    u64 paths = 0;
    bool ok = true;
    while (!w.empty() && ok) {
        if (++paths > 4000 || elapsed() > opt.timeLimit) { ok = false; break; }
        State s = std::move(w.back());
        w.pop_back();
        try {
            while (true) {
                if ((nSteps & 1023) == 0 && elapsed() > opt.timeLimit) { ok = false; break; }
                step(s);
                if (s.fr.size() < n.depth || (s.fr.size() == n.depth && s.fr.back().uid != n.uid)) break;
                if (s.fr.size() == n.depth && !n.loop->contains(s.fr.back().bb)) { break; }
            }
        } catch (PathEnd &) {}
        catch (Unsupported &u) { ok = false; if (opt.verbose) std::cerr << "loop probe: " << u.why << "\n"; }
        catch (z3::exception &) { ok = false; }
    }
    work = saved; nest = savedNest; quiet = savedQuiet;
    return ok && !n.bad;
}

bool Engine::callPredicate(State const &base, Function *fn, std::vector<V> args, z3::expr &out, bool value) {
    std::vector<State> w;
    auto *saved = work; auto *savedNest = nest; bool savedQuiet = quiet;
    work = &w; nest = nullptr; quiet = true;
    State s0 = base;
    s0.hookBefore = s0.hookAfter = nullptr;
    size_t npc = s0.pc.size();
    pushFrame(s0, fn, std::move(args), nullptr, Frame::Top);
    w.push_back(std::move(s0));
    z3::expr r = Z->bool_val(false);
    bool ok = true, first = true;
    u64 paths = 0;
    while (!w.empty() && ok) {
        if (++paths > 256) { ok = false; break; }
        State s = std::move(w.back());
        w.pop_back();
        try { while (true) step(s); }
        catch (PathEnd &e) {
            if (e.why != "done") continue;
            z3::expr c = s.retval.ex();
            if (value) {
                z3::expr g = Z->bool_val(true);
                for (size_t k = npc; k < s.pc.size(); ++k) g = s.pc[k] && g;
                r = first ? s.retval.bv() : z3::ite(g, s.retval.bv(), r);
                first = false;
                continue;
            }
            if (s.retval.w != 1) c = s.retval.bv() != Z->bv_val(0, s.retval.w);
            for (size_t k = npc; k < s.pc.size(); ++k) c = s.pc[k] && c;
            r = r || c;
        } catch (Unsupported &) { ok = false; }
        catch (z3::exception &) { ok = false; }
    }
    work = saved; nest = savedNest; quiet = savedQuiet;
    out = r.simplify();
    return ok;
}

bool Engine::atBlock(State &s) {
    Frame &f = s.fr.back();
    if (nest && f.uid == nest->uid && s.fr.size() == nest->depth) {
        if (f.bb == nest->header) { nest->ends.push_back(s); return false; }
        if (!nest->loop->contains(f.bb)) { if (!f.bb->isLandingPad()) nest->exits++; return false; }
    }
    if (!opt.inductive || !s.flags["inductive"]) return true;
    auto &li = loops(f.fn);
    Loop *l = li.getLoopFor(f.bb);
    if (!l || l->getHeader() != f.bb) return true;
    bool back = f.prev && l->contains(f.prev);
    if (back && f.cut.count(f.bb)) return false;          // the iteration is closed: the invariant was shown to be preserved
    if (!back) { f.cut.erase(f.bb); f.visits[f.bb] = 0; }
    if (f.visits[f.bb]++ > 6) return true;
    return loopCut(s);
}

bool Engine::loopCut(State &s) {
    Frame &f0 = s.fr.back();
    BasicBlock *hdr = f0.bb;
    if (isa<PHINode>(&hdr->front())) return true;
    Loop *l = loops(f0.fn).getLoopFor(hdr);
    auto mkNest = [&] { Nest n; n.uid = f0.uid; n.depth = s.fr.size(); n.header = hdr; n.loop = l; return n; };

    auto *savedLog = wlog;
    WriteLog wl;
    struct Restore { Engine *e; WriteLog *o; ~Restore() { e->wlog = o; } } restore{this, savedLog};
    auto propagate = [&] { if (savedLog) for (auto &x : wl.cells) savedLog->cells.insert(x); if (savedLog) for (auto x : wl.objs) savedLog->objs.insert(x); };

    // 1. probe one iteration
    wlog = &wl;
    Nest probe = mkNest();
    bool explored = exploreIteration(s, probe);
    if (opt.verbose) std::cerr << "loop at " << locOf(&hdr->front()) << ": probe " << explored << " ends " << probe.ends.size() << " exits " << probe.exits << "\n";
    if (!explored) return true;
    if (probe.ends.empty()) return true;                        // decided on this path: unroll
    if (probe.exits == 0 && !(s.flags["after first"] && f0.visits[hdr] > 1)) return true;

    // 2. havoc set: what an iteration writes in objects that exist before the loop
    auto prune = [&] {
        auto gone = [&](u32 id) { auto it = s.mem.find(id); return it == s.mem.end() || !it->second->alive; };
        for (auto it = wl.cells.begin(); it != wl.cells.end();) it = gone(std::get<0>(*it)) ? wl.cells.erase(it) : std::next(it);
        for (auto it = wl.objs.begin(); it != wl.objs.end();) it = gone(*it) ? wl.objs.erase(it) : std::next(it);
    };
    prune();
    struct Cell { u32 id; u32 off; unsigned n; bool whole; V entry; z3::expr ph; Cell() : ph(*Z) {} };
    std::vector<Cell> cells;
    std::vector<u32> whole;
    auto buildCells = [&]() -> bool {
        cells.clear(); whole.clear();
        for (u32 id : wl.objs) if (s.mem.count(id) && s.mem.at(id)->alive) { if (s.mem.at(id)->kind == Obj::Exc) return false; whole.push_back(id); }
        std::map<u32, std::map<u32, unsigned>> per; // object -> off -> width (merged)
        for (auto &[id, off, n] : wl.cells) {
            auto it = s.mem.find(id);
            if (it == s.mem.end() || !it->second->alive || it->second->logged) continue;
            if (it->second->kind == Obj::Exc) return false;
            auto &m = per[id];
            auto x = m.find(off);
            if (x == m.end() || x->second < n) m[off] = n;
        }
        for (auto &[id, m] : per) {
            // regions of overlapping accesses are cut at the bounds of the small accesses, into pieces of at most 8 bytes
            for (auto i = m.begin(); i != m.end();) {
                u32 lo = i->first, hi = i->first;
                std::set<u32> cuts;
                for (; i != m.end() && (i->first < hi || i->first == lo); ++i) {
                    hi = std::max(hi, i->first + i->second);
                    if (i->second <= 8) { cuts.insert(i->first); cuts.insert(i->first + i->second); }
                }
                auto init = [&](u32 b) { for (auto &e : probe.ends) { auto o = e.mem.find(id); if (o != e.mem.end() && b < o->second->st.size() && o->second->st[b] == 0) return false; } return true; };
                cuts.insert(hi);
                for (u32 b = lo + 1; b < hi; ++b) if (init(b) != init(b - 1)) cuts.insert(b);
                for (u32 b = lo; b < hi;) {
                    u32 e = std::min(*cuts.upper_bound(b), b + 8 - b % 8);
                    if (e - b != 8 && e - b != 4 && e - b != 2) e = b + ((e - b) >= 4 ? 4 : (e - b) >= 2 ? 2 : 1);
                    Cell c; c.id = id; c.off = b; c.n = e - b; cells.push_back(c);
                    b = e;
                }
            }
        }
        return cells.size() <= 400;
    };
    auto cellValue = [&](State &st, Cell const &c) { return load(st, c.id, c.off, 8 * c.n); };
    auto sane = [&](State &e) { // nothing but memory contents may differ at the end of an iteration
        if (e.excs.size() != s.excs.size() || e.caught.size() != s.caught.size() || e.uncaught != s.uncaught) return false;
        for (auto &[id, o] : s.mem) if (o->alive && !(e.mem.count(id) && e.mem.at(id)->alive)) return false;
        for (auto &[id, o] : e.mem) if (o->alive && o->kind == Obj::Heap && !s.mem.count(id)) return false;
        return true;
    };
    for (auto &e : probe.ends) if (!sane(e)) { if (opt.verbose) std::cerr << "loop at " << locOf(&hdr->front()) << ": not cut (allocation or exception state changes)\n"; return true; }
    if (!buildCells()) return true;

    std::string tn = "t!" + std::to_string(fresh++);
    z3::expr tph = Z->bv_const((tn + ".ph").c_str(), 64), fph = Z->bool_const((tn + ".first.ph").c_str());
    struct Cand { z3::expr e; std::string text; bool live = true; int pred = -1; int cell = -1; int dep = -1; z3::expr def; };   // def: cell == def(t, dep)
    std::vector<Cand> cands;
    std::vector<std::pair<z3::expr, z3::expr>> dummy;

    // 3. havocked state
    auto inst = [&](z3::expr const &e, std::vector<z3::expr> const &vals, z3::expr const &t) {
        z3::expr_vector from(*Z), to(*Z);
        for (size_t k = 0; k < cells.size(); ++k) { from.push_back(cells[k].ph); to.push_back(vals[k]); }
        from.push_back(tph); to.push_back(t);
        // whether this is the first iteration: not "t == 0", t counts modulo 2^64
        z3::expr ts = t.simplify();
        from.push_back(fph); to.push_back(ts.is_numeral() ? Z->bool_val(ts.get_numeral_uint64() == 0) : t.is_const() ? Z->bool_const((tn + ".first").c_str()) : Z->bool_val(false));
        z3::expr x = e;
        return x.substitute(from, to).simplify();
    };
    auto havoc = [&](std::vector<z3::expr> &vals, z3::expr &t) {
        State h = s;
        vals.clear();
        for (u32 id : whole) {
            Obj &o = mut(h, id);
            if (o.logged) {
                auto b = std::make_shared<Log>();
                b->kind = Log::Base;
                b->arr = Z->constant(("mem!" + std::to_string(fresh++)).c_str(), Z->array_sort(Z->bv_sort(64), Z->bv_sort(8)));
                o.log = b;
            }
        }
        t = freshBV("iteration", 64);
        // cells with a defining equation get that value, the others are fresh
        std::vector<char> done(cells.size(), 0);
        for (auto &c : cells) vals.push_back(c.ph);
        for (bool more = true; more;) {
            more = false;
            for (auto &c : cands) if (c.live && c.cell >= 0 && !done[(size_t) c.cell] && (c.dep < 0 || done[(size_t) c.dep])) { vals[(size_t) c.cell] = inst(c.def, vals, t); done[(size_t) c.cell] = 1; more = true; }
            if (more) continue;
            for (size_t k = 0; k < cells.size(); ++k) if (!done[k]) { vals[k] = freshV("loop", 8 * cells[k].n).e; done[k] = 1; more = true; break; }
        }
        for (size_t k = 0; k < cells.size(); ++k) {
            V v = V::mk(8 * cells[k].n, vals[k]);
            store(h, cells[k].id, cells[k].off, v);
            vals[k] = v.bv();
        }
        h.model.reset();
        return h;
    };
    auto valsOf = [&](State &e) { std::vector<z3::expr> r; for (auto &c : cells) r.push_back(cellValue(e, c).bv()); return r; };
    auto predAt = [&](State &st, int k, z3::expr &out) { return callPredicate(st, s.preds[(size_t) k], {}, out); };

    auto buildCands = [&] {
        cands.clear();
        unsigned idx = 0;
        for (auto &c : cells) {
            c.ph = Z->bv_const((tn + ".c" + std::to_string(idx++)).c_str(), 8 * c.n);
            State tmp = s;
            c.entry = cellValue(tmp, c);
        }
        auto addc = [&](z3::expr e, std::string const &t) { Cand c{e, t, true, -1, -1, -1, e}; cands.push_back(c); };
        auto addd = [&](Cell const &c, z3::expr def, std::string const &t, int dep = -1) { Cand x{c.ph == def, t, true, -1, (int) (&c - cells.data()), dep, def}; cands.push_back(x); };
        auto nm = [&](Cell const &c) { return s.mem.at(c.id)->name + "+" + std::to_string(c.off); };
        auto knownAt = [&](Cell const &c) { Obj const &o = *s.mem.at(c.id); for (unsigned k = 0; k < c.n; ++k) if (o.st[c.off + k] == 0) return false; return true; };
        std::vector<size_t> bools;
        for (auto &c : cells) if (c.n == 1 && knownAt(c) && c.entry.bv().simplify().is_numeral() && bools.size() < 6) bools.push_back((size_t) (&c - cells.data()));
        // storage that is not initialised when the loop starts may be initialised once some flag is set
        auto guarded = [&](Cell const &c, z3::expr def, std::string const &t) {
            if (knownAt(c)) return;
            for (size_t b : bools) {
                addc(z3::implies(cells[b].ph != Z->bv_val(0, 8), c.ph == def), nm(cells[b]) + " => " + t);
            }
        };
        std::vector<z3::expr> terms, vals64;
        for (auto &t : s.indexTerms) terms.push_back(t.ex());
        for (auto &t : s.valueTerms) vals64.push_back(t.ex());
        for (auto &tt : terms) {
            addc(z3::ule(tph, tt), "t <= term"); addc(z3::ult(tph, tt), "t < term");
            addc(z3::uge(tt, tph), "term >= t");
        }
        for (auto &fa : s.facts) for (auto &tt : terms) {
            addc(z3::implies(z3::ult(tt, tph), fa), "term < t => fact"); addc(z3::implies(z3::ult(tt, tph), !fa), "term < t => !fact");
            addc(z3::implies(z3::ule(tt, tph), fa), "term <= t => fact"); addc(z3::implies(z3::ule(tt, tph), !fa), "term <= t => !fact");
        }
        for (auto &c : cells) {
            unsigned w = 8 * c.n;
            z3::expr e0 = c.entry.bv();
            bool known = c.entry.sym ? true : true;
            { Obj const &o = *s.mem.at(c.id); for (unsigned k = 0; k < c.n; ++k) if (o.st[c.off + k] == 0) known = false; }
            if (known) {
                addd(c, e0, nm(c) + " unchanged");
                std::set<u64> strides;
                for (auto &pe : probe.ends) {
                    State tmp = pe;
                    z3::expr d = (cellValue(tmp, c).bv() - e0).simplify();
                    if (d.is_numeral() && w <= 64) { u64 x = d.get_numeral_uint64(); if (x && strides.size() < 3) strides.insert(x); }
                }
                for (u64 d : strides) {
                    z3::expr tt = w == 64 ? tph : tph.extract(w - 1, 0);
                    addd(c, e0 + Z->bv_val(d, w) * tt, nm(c) + " == entry + " + std::to_string((int64_t) d) + " t");
                }
                if (w >= 32) {
                    addc(z3::uge(c.ph, e0), nm(c) + " >= entry"); addc(z3::ule(c.ph, e0), nm(c) + " <= entry");
                }
            }
            if (!known && w <= 64) for (auto &pe : probe.ends) {
                State tmp = pe;
                z3::expr x = cellValue(tmp, c).bv().simplify();
                if (x.is_numeral()) guarded(c, x, nm(c) + " == constant");
            }
            if (w == 8) { addd(c, Z->bv_val(0, 8), nm(c) + " == 0"); addd(c, Z->bv_val(1, 8), nm(c) + " == 1"); addc(z3::ule(c.ph, Z->bv_val(1, 8)), nm(c) + " is bool"); }
            if (w == 64) for (auto &tt : terms) {
                addc(z3::ule(c.ph, tt), nm(c) + " <= term"); addc(z3::ult(c.ph, tt), nm(c) + " < term"); addc(z3::uge(c.ph, tt), nm(c) + " >= term"); addd(c, tt, nm(c) + " == term");
                addc(c.ph != tt, nm(c) + " != term");
                for (auto &fa : s.facts) {
                    addc(z3::implies(z3::ugt(c.ph, tt), fa), nm(c) + " > term => fact"); addc(z3::implies(z3::ugt(c.ph, tt), !fa), nm(c) + " > term => !fact");
                    addc(z3::implies(c.ph == tt, fa), nm(c) + " == term => fact"); addc(z3::implies(c.ph == tt, !fa), nm(c) + " == term => !fact");
                    addc(z3::implies(z3::uge(c.ph, tt), fa), nm(c) + " >= term => fact"); addc(z3::implies(z3::uge(c.ph, tt), !fa), nm(c) + " >= term => !fact");
                }
            }
            if (w == 64) { addc(z3::ult(c.ph, tph), nm(c) + " < t"); addc(z3::ule(c.ph, tph), nm(c) + " <= t"); }
            if (w == 8 && !terms.empty()) for (auto &tt : terms) for (auto &fa : s.facts) {
                addc(z3::implies(c.ph != Z->bv_val(0, 8) && z3::ult(tt, tph), fa), nm(c) + " && term < t => fact");
                addc(z3::implies(c.ph == Z->bv_val(0, 8) && z3::ult(tt, tph), fa), "!" + nm(c) + " && term < t => fact");
                addc(z3::implies(c.ph != Z->bv_val(0, 8) && z3::ult(tt, tph), !fa), nm(c) + " && term < t => !fact");
                addc(z3::implies(c.ph == Z->bv_val(0, 8) && z3::ult(tt, tph), !fa), "!" + nm(c) + " && term < t => !fact");
            }
            for (auto &u : vals64) {
                if (u.get_sort().bv_size() != w) continue;
                addd(c, u, nm(c) + " == value"); addc(c.ph != u, nm(c) + " != value");
                for (auto &tt : terms) {
                    z3::expr g = z3::ult(tt, tph);
                    addc(z3::implies(g, z3::ule(c.ph, u)), "term < t => " + nm(c) + " <=u value"); addc(z3::implies(g, z3::uge(c.ph, u)), "term < t => " + nm(c) + " >=u value");
                    addc(z3::implies(g, z3::sle(c.ph, u)), "term < t => " + nm(c) + " <=s value"); addc(z3::implies(g, z3::sge(c.ph, u)), "term < t => " + nm(c) + " >=s value");
 addc(z3::implies(z3::ule(tt, tph), c.ph == u), "term <= t => " + nm(c) + " == value"); addc(z3::implies(z3::ule(tt, tph), c.ph != u), "term <= t => " + nm(c) + " != value");
                    addc(z3::implies(g, c.ph == u), "term < t => " + nm(c) + " == value"); addc(z3::implies(g, c.ph != u), "term < t => " + nm(c) + " != value");
                }
            }
        }
        for (size_t q = 0; q < s.funcs.size(); ++q) {
            z3::expr ft(*Z);
            if (!callPredicate(s, s.funcs[q], {V::mk(64, tph)}, ft, true)) continue;
            auto at = [&](z3::expr x) { z3::expr_vector a(*Z), b(*Z); a.push_back(tph); b.push_back(x); z3::expr e = ft; return e.substitute(a, b); };
            std::string fn = "f" + std::to_string(q);
            auto cut = [&](z3::expr x, unsigned w) { return w == 64 ? x : x.extract(w - 1, 0); };
            for (auto &c : cells) {
                unsigned w = 8 * c.n;
                if (w > 64) continue;
                addd(c, cut(ft, w), nm(c) + " == " + fn + "(t)");
                addd(c, cut(at(tph + Z->bv_val(1, 64)), w), nm(c) + " == " + fn + "(t + 1)");
                if (w == 64) addd(c, at(tph - Z->bv_val(1, 64)), nm(c) + " == " + fn + "(t - 1)");
                guarded(c, cut(ft, w), nm(c) + " == " + fn + "(t)");
                if (w == 64) for (auto &d : cells) if (d.n == 8 && &d != &c) {
                    addd(c, at(d.ph), nm(c) + " == " + fn + "(" + nm(d) + ")", (int) (&d - cells.data()));
                    guarded(c, at(d.ph), nm(c) + " == " + fn + "(" + nm(d) + ")");
                }
            }
        }
        for (size_t i = 0; i < cells.size(); ++i) for (size_t j = i + 1; j < cells.size() && cands.size() < 6000; ++j)
            if (cells[i].n == cells[j].n && (cells[i].n == 8 || (cells[i].n == 1 && knownAt(cells[i]) && knownAt(cells[j])))) {
                addd(cells[j], cells[i].ph, nm(cells[i]) + " == " + nm(cells[j]), (int) i);
                if (cells[i].n != 8) continue;
                guarded(cells[i], cells[j].ph, nm(cells[i]) + " == " + nm(cells[j]));
                if (knownAt(cells[i])) guarded(cells[j], cells[i].ph, nm(cells[i]) + " == " + nm(cells[j]));
                addc(z3::ule(cells[i].ph, cells[j].ph), nm(cells[i]) + " <= " + nm(cells[j]));
                addc(z3::uge(cells[i].ph, cells[j].ph), nm(cells[i]) + " >= " + nm(cells[j]));
            }
        if (s.flags["after first"]) for (auto &c : cells) if (knownAt(c)) addc(!fph || c.ph == c.entry.bv(), "t == 0 => " + nm(c) + " == entry");
        if (s.flags["after first"]) for (auto &c : cells) if (c.n <= 8) addc(z3::sge(c.ph, Z->bv_val(0, 8 * c.n)), nm(c) + " >= 0");
        if (s.flags["after first"]) for (auto &c : cells) for (auto &u0 : vals64) {   // what holds from the second iteration on
            unsigned w = 8 * c.n;
            if (w > u0.get_sort().bv_size()) continue;
            z3::expr u = w == u0.get_sort().bv_size() ? u0 : u0.extract(w - 1, 0);
            z3::expr first = fph;
            addc(first || c.ph == u, "0 < t => " + nm(c) + " == value");
            for (auto &d : cells) if (&d != &c && d.n <= 8) {
                z3::expr zero = d.ph == Z->bv_val(0, 8 * d.n);
                addc(first || zero || c.ph == u, "0 < t && " + nm(d) + " => " + nm(c) + " == value");
                addc(first || !zero || c.ph == u, "0 < t && !" + nm(d) + " => " + nm(c) + " == value");
            }
        }
        for (size_t k = 0; k < s.preds.size(); ++k) { Cand c{Z->bool_val(true), "harness predicate " + std::to_string(k), true, -1, -1, -1, Z->bool_val(true)}; c.pred = (int) k; cands.push_back(c); }
    };
    // drops every live candidate that can be false in st
    auto filter = [&](State &st, std::vector<z3::expr> const &vals, z3::expr const &t) -> bool {
        bool dropped = false;
        std::vector<std::pair<size_t, z3::expr>> now;
        for (size_t k = 0; k < cands.size(); ++k) {
            if (!cands[k].live) continue;
            z3::expr e = Z->bool_val(true);
            if (cands[k].pred >= 0) { if (!predAt(st, cands[k].pred, e)) { cands[k].live = false; dropped = true; continue; } }
            else e = inst(cands[k].e, vals, t);
            if (e.is_true()) continue;
            if (e.is_false()) { cands[k].live = false; dropped = true; continue; }
            now.push_back({k, e});
        }
        while (!now.empty()) {
            z3::expr_vector neg(*Z);
            std::set<unsigned> seen;
            for (auto &[k, e] : now) if (seen.insert(e.id()).second) neg.push_back(!e);
            std::shared_ptr<z3::model> m;
            int r = check(st, z3::mk_or(neg), &m);
            if (r == 0) break;
            if (r < 0) { // undecided: look at them one by one
                std::vector<std::pair<size_t, z3::expr>> keep;
                for (auto &[k, e] : now) { if (check(st, !e) == 0) keep.push_back({k, e}); else { cands[k].live = false; dropped = true; } }
                now = keep;
                break;
            }
            std::vector<std::pair<size_t, z3::expr>> keep;
            for (auto &[k, e] : now) {
                z3::expr v = meval(*m, e);
                if (v.is_true()) keep.push_back({k, e});
                else { cands[k].live = false; dropped = true; }
            }
            if (keep.size() == now.size()) { for (auto &[k, e] : now) cands[k].live = false; dropped = true; break; }
            now = keep;
        }
        return dropped;
    };
    buildCands();
    {   // they must hold on entry
        State st = s;
        auto vals = valsOf(st);
        filter(st, vals, Z->bv_val(0, 64));
    }
    State h = s;
    std::vector<z3::expr> vals;
    z3::expr t(*Z);
    for (int round = 0;; ++round) {
        if (opt.verbose) { u64 nl = 0; for (auto &c : cands) nl += c.live; std::cerr << "  round " << round << " candidates " << nl << "/" << cands.size() << " cells " << cells.size() << " t " << elapsed() << "\n"; }
        if (round > 60 || elapsed() > opt.timeLimit) return true;
        h = havoc(vals, t);
        std::set<unsigned> assumed;
        for (auto &c : cands) if (c.live) {
            z3::expr e = Z->bool_val(true);
            if (c.pred >= 0) { if (!predAt(h, c.pred, e)) { c.live = false; continue; } }
            else e = inst(c.e, vals, t);
            if (!e.is_true() && assumed.insert(e.id()).second) h.pc.push_back(e);
        }
        Nest n = mkNest();
        prune();
        size_t nc = wl.cells.size(), no = wl.objs.size();
        if (!exploreIteration(h, n)) { if (opt.verbose) std::cerr << "loop at " << locOf(&hdr->front()) << ": body not explorable\n"; return true; }
        for (auto &e : n.ends) if (!sane(e)) { if (opt.verbose) std::cerr << "loop at " << locOf(&hdr->front()) << ": not cut (allocation)\n"; return true; }
        prune();
        if (wl.cells.size() != nc || wl.objs.size() != no) { // more is written than was havocked
            if (!buildCells()) return true;
            buildCands();
            State st = s;
            auto v0 = valsOf(st);
            filter(st, v0, Z->bv_val(0, 64));
            continue;
        }
        bool dropped = false;
        for (auto &e : n.ends) {
            auto ev = valsOf(e);
            if (filter(e, ev, (t + Z->bv_val(1, 64)).simplify())) dropped = true;
        }
        if (!dropped) break;
    }
    propagate();
    std::string inv = locOf(&hdr->front()) + " in " + info(f0.fn).dem.substr(0, 120) + ": ";
    u64 nl = 0;
    for (auto &c : cands) if (c.live) { ++nl; if (inv.size() < 900) inv += c.text + "; "; }
    if (!quiet) { nCuts++; if (invReport.size() < 60 && std::find(invReport.begin(), invReport.end(), inv) == invReport.end()) invReport.push_back(inv); }
    s = std::move(h);
    s.abstracted++;
    s.fr.back().cut.insert(hdr);
    s.model.reset();
    return true;
}
