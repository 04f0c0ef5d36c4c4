// C14: calculators with a long past against fresh ones, which are given only
// the final configuration and structure.
#include "world.hpp"
#include <cmath>
namespace sim {
using namespace std;

// f i=kind(0 callback, 1 allocation),nfail,at   the next operation fails
// merge i=calc,stru,ncpu,seed                   parallel evaluation by copies
// cmp                                           compare with fresh calculators
static bool pastonly(const Op& op)
{
    return op.n == "c.eval" || op.n == "c.eval0" || op.n == "c.setstru" || op.n == "q" ||
        op.n == "f" || op.n == "merge" || op.n == "cmp" || op.n == "x.abandon";
}

static Scenario gen(uint64_t seed, bool thorough)
{
    Rng r(seed ^ 0xc14);
    GenOptions o;
    static const vector<int> all = {KPDF, KPDF, KDPDF, KDSUM, KBOND, KOVL, KOVL, KBVS, KPC};
    o.kinds = {r.pick(all)};
    if (r.chance(0.3)) o.kinds.push_back(r.pick(all));
    o.evtype = -1;
    o.evaltoggle = r.chance(0.4);
    o.masks = r.chance(0.5);
    o.badatoms = r.chance(0.3);
    o.cfgstructures = false;
    o.simcomponents = r.chance(0.5);
    o.fastfriendly = r.chance(0.7);
    o.nsteps = thorough ? r.range(6, 50) : r.range(4, 22);
    o.maxatoms = 7;
    Gen g(seed, o);
    g.wts[ASTRU] *= 1.5;
    g.wts[ASETSTRU] *= 1.5;
    g.generate();
    Scenario sc;
    sc.prop = "C14";
    sc.seed = seed;
    double pf = r.chance(0.5) ? 0.0 : r.pick(vector<double>{0.1, 0.3});
    double pm = r.chance(0.6) ? 0.0 : r.pick(vector<double>{0.1, 0.4});
    int nset = int(g.ops.size());
    for (int k = 0; k < nset; ++k)
    {
        const Op& op = g.ops[k];
        // deliberate memory of the Q-step
        if (op.n == "c.optq" || (op.n == "c.attr" && op.S(0) == "qstep")) continue;
        if (op.n == "c.eval" && r.chance(pm))
        {
            sc.ops.push_back(Op("merge", {op.I(0), op.I(1), r.range(1, 5), long(r.u64() >> 33)}));
            continue;
        }
        bool ev = op.n == "c.eval" || op.n == "c.eval0" || op.n == "q" || op.n == "c.setstru";
        if (ev && r.chance(pf))
            sc.ops.push_back(Op("f", {r.below(2), r.pick(vector<int>{1, 1, 3, 1000000}),
                        long(exp(r.uni(0, log(3000.))))}));
        sc.ops.push_back(op);
        if (op.n == "q" && k > nset / 3 && r.chance(0.1)) sc.ops.push_back(Op("cmp"));
    }
    sc.ops.push_back(Op("cmp"));
    return sc;
}

static void merge(World& w, const Op& op, Outcome& out)
{
    const long c = op.I(0), s = op.I(1);
    const int ncpu = max(1L, min(8L, op.I(2, 2)));
    if (!w.has(c) || !w.hass(s) || w.meta[c].kind == KPC) { out.skipped = true; return; }
    out = w.apply(Op("c.setstru", {c, s}));
    if (!out.exc.empty() || out.skipped) return;
    Rng r(op.I(3));
    PQPtr pq = w.calc[c];
    try
    {
        string snap = diffpy::serialization_tostring(pq);
        vector<string> parts;
        for (int k = 0; k < ncpu; ++k)
        {
            PQPtr x;
            diffpy::serialization_fromstring(x, snap);
            x->setupParallelRun(k, ncpu);
            x->eval();
            parts.push_back(x->getParallelData());
        }
        // some merges stay incomplete
        int nm = r.chance(0.3) ? r.below(ncpu) : ncpu;
        for (int k = 0; k < nm; ++k) pq->mergeParallelData(parts[k], ncpu);
        if (nm == ncpu) w.meta[c].dirty = false;
    }
    catch (const exception& e) { out.exc = demangle(typeid(e).name()); out.what = e.what(); }
}

static void compare(World& w, const vector<Op>& ops, size_t upto, const vector<long>& last, Ctx& ctx, Comparer& cmp)
{
    // final evaluation of the used calculators
    vector<Outcome> used(16), fresh(16);
    for (int c = 0; c < 16; ++c)
    {
        if (!w.has(c) || last[c] < 0 || !w.hass(last[c])) continue;
        used[c] = w.apply(Op("c.eval", {c, last[c]}));
        if (!used[c].exc.empty()) w.apply(Op("x.abandon", {c}));
    }
    World f;
    for (size_t k = 0; k < upto; ++k)
        if (!pastonly(ops[k])) f.apply(ops[k]);
    for (int c = 0; c < 16; ++c)
    {
        if (!f.has(c) || last[c] < 0 || !f.hass(last[c])) continue;
        fresh[c] = f.apply(Op("c.eval", {c, last[c]}));
        if (!fresh[c].exc.empty()) f.apply(Op("x.abandon", {c}));
    }
    for (int c = 0; c < 16; ++c)
    {
        if (!w.has(c) || last[c] < 0) continue;
        const int kind = w.meta[c].kind;
        string cls;
        used[c].what = fresh[c].what = "";
        string d = cmp.compare(used[c], fresh[c], kind, cls);
        if (!cls.empty()) ctx.fail(cls, "calculator %d: used vs fresh: %s", c, d.c_str());
        if (!used[c].exc.empty()) continue;
        Outcome a = w.apply(Op("q", {c, -1})), b = f.apply(Op("q", {c, -1}));
        logOutcome(ctx, Op("final", {c}), a);
        ctx.feat(w.feature(Op("q", {c}), a));
        if (kind == KDPDF)
        {
            auto* x = dynamic_cast<DebyePDFCalculator*>(w.calc[c].get());
            auto* y = dynamic_cast<DebyePDFCalculator*>(f.calc[c].get());
            double ds = (x->getDoubleAttr("extendedrmax") - y->getDoubleAttr("extendedrmax")) / x->getRstep();
            if (fabs(ds) > 0.5)
            {
                if (x->getRstep() == y->getRstep() && !(fabs(ds) < 50.1))
                    ctx.fail("range-not-reduced", "calculator %d: range exceeds that of a fresh one by %g steps", c, ds);
                ctx.count("range-hysteresis");
                continue;
            }
        }
        d = cmp.compare(a, b, kind, cls);
        if (!cls.empty()) ctx.fail(cls, "calculator %d: used vs fresh: %s", c, d.c_str());
        ctx.count("checked", a.obs.size());
        ctx.count("nontrivial");
        if (w.calc[c]->getEvaluatorTypeUsed() != BASIC) ctx.count("final-eval.fast");
    }
}

static void run(const Scenario& sc, Ctx& ctx)
{
    World w;
    vector<long> last(16, -1);
    Comparer cmp;
    for (size_t k = 0; k < sc.ops.size(); ++k)
    {
        const Op& op = sc.ops[k];
        if (op.n == "f") continue;
        const long c = op.I(0);
        if (op.n == "cmp") { compare(w, sc.ops, k, last, ctx, cmp); continue; }
        bool ev = op.n == "c.eval" || op.n == "c.setstru" || op.n == "merge";
        Outcome o;
        if (op.n == "merge") merge(w, op, o);
        else if (k && sc.ops[k - 1].n == "f" && (ev || op.n == "c.eval0" || op.n == "q"))
        {
            const Op& f = sc.ops[k - 1];
            if (f.I(0) == 0) seam::cb_arm(f.I(2), max(1L, f.I(1)));
            else seam::alloc_arm(f.I(2), max(1L, f.I(1)));
            o = w.apply(op);
            long fired = f.I(0) == 0 ? seam::g_cb.fired : seam::g_alloc.fired;
            seam::cb_disarm();
            seam::alloc_disarm();
            if (fired) ctx.count(f.I(0) == 0 ? string("fault.callback.") + seam::g_cb.lastsite : string("fault.alloc"));
        }
        else o = w.apply(op);
        logOutcome(ctx, op, o);
        ctx.feat(w.feature(op, o));
        if ((ev || op.n == "c.eval0") && o.exc.empty() && !o.skipped && w.has(c) && fastkind(w.meta[c].kind))
        {
            // remember the magnitudes, because fast updates keep their rounding errors
            Outcome q = w.apply(Op("q", {c, -1}));
            string cls;
            if (q.exc.empty()) cmp.compare(q, q, w.meta[c].kind, cls);
        }
        if (op.n == "c.new" && !o.skipped) last[c & 15] = -1;
        if (op.n == "c.copy" && !o.skipped) last[op.I(1) & 15] = last[c & 15];
        if (ev && !o.skipped) last[c & 15] = op.I(1);
        if (!o.exc.empty() && (ev || op.n == "c.eval0")) w.apply(Op("x.abandon", {c}));
        if (op.n == "merge" && o.exc.empty() && !o.skipped) ctx.count("merges");
    }
}

static Register reg(Property{"C14", gen, run, preloadTables});

}   // namespace sim
