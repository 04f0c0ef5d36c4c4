// C02: failures injected in the middle of operations, later results must be
// the same as without any failure.
#include "world.hpp"
#include <cmath>
namespace sim {
using namespace std;

// f i=kind(0 callback,1 allocation),nfail,mode(0 retry,1 abandon) d=fraction
// applies to the next operation
static bool cantarget(const string& n) { return n[0] == 'c' || n == "q"; }

static Scenario gen(uint64_t seed, bool thorough)
{
    Rng r(seed ^ 0xc02);
    GenOptions o;
    vector<int> all = {KPDF, KPDF, KDPDF, KDSUM, KBOND, KOVL, KBVS, KPC};
    o.kinds = {r.pick(all)};
    if (r.chance(0.3)) o.kinds.push_back(r.pick(all));
    o.evtype = r.chance(0.2) ? 3 : r.chance(0.2) ? -1 : 2;
    o.evaltoggle = r.chance(0.3);
    o.masks = r.chance(0.4);
    o.badatoms = r.chance(0.2);
    o.cfgstructures = r.chance(0.3);
    o.simcomponents = r.chance(0.85);
    o.nsteps = thorough ? r.range(6, 40) : r.range(4, 18);
    o.maxatoms = 6;
    Gen g(seed, o);
    g.generate();
    Scenario sc;
    sc.prop = "C02";
    sc.seed = seed;
    double p = r.pick(vector<double>{0.05, 0.15, 0.4});
    bool alloc = r.chance(0.5), cb = !alloc || r.chance(0.5);
    int nset = int(g.ops.size());
    for (int k = 0; k < nset; ++k)
    {
        const Op& op = g.ops[k];
        bool ev = op.n == "c.eval" || op.n == "c.eval0" || op.n == "c.setstru";
        if (cantarget(op.n) && r.chance(ev ? 2 * p : p))
        {
            int kind = (cb && alloc) ? r.below(2) : alloc ? 1 : 0;
            if (kind == 0 && !ev && op.n != "q" && r.chance(0.7)) kind = alloc ? 1 : 0;
            double fr = r.chance(0.2) ? 0.0 : r.chance(0.2) ? 0.999 : r.uni();
            sc.ops.push_back(Op("f", {kind, r.pick(vector<int>{1, 1, 2, 1000000}), r.chance(0.35)}, {fr}));
        }
        sc.ops.push_back(op);
    }
    return sc;
}

static Outcome armed(World& w, const Op& op, const Op& f, long at, long nfail, long& seen, long& fired)
{
    Outcome o;
    if (f.I(0) == 0) seam::cb_arm(at, nfail);
    else seam::alloc_arm(at, nfail);
    o = w.apply(op);
    if (f.I(0) == 0) { seen = seam::g_cb.seen; fired = seam::g_cb.fired; seam::cb_disarm(); }
    else { seen = seam::g_alloc.seen; fired = seam::g_alloc.fired; seam::alloc_disarm(); }
    return o;
}

static void run(const Scenario& sc, Ctx& ctx)
{
    g_simbnds = sc.seed % 3 == 0;
    bool hasmask = false, hascfg = false;
    for (auto& op : sc.ops)
    {
        hasmask |= op.n == "c.pmask" || op.n == "c.tmask" || op.n == "c.mall" || op.n == "c.minv";
        hascfg |= op.n == "s.cfg";
    }
    // clean pass that counts the fault points
    vector<long> points(sc.ops.size(), 0);
    {
        World w;
        for (size_t k = 0; k < sc.ops.size(); ++k)
        {
            if (sc.ops[k].n == "f") continue;
            if (k && sc.ops[k - 1].n == "f")
            {
                long fired;
                armed(w, sc.ops[k], sc.ops[k - 1], 0, 0, points[k], fired);
            }
            else w.apply(sc.ops[k]);
        }
    }
    // pass with failures
    vector<Op> ref;
    vector<Outcome> got;
    long nfired = 0;
    {
        World w;
        for (size_t k = 0; k < sc.ops.size(); ++k)
        {
            const Op& op = sc.ops[k];
            if (op.n == "f") continue;
            if (!(k && sc.ops[k - 1].n == "f" && points[k] > 0 && cantarget(op.n)))
            {
                Outcome o = w.apply(op);
                logOutcome(ctx, op, o);
                ref.push_back(op);
                got.push_back(o);
                ctx.feat(w.feature(op, o));
                continue;
            }
            const Op& f = sc.ops[k - 1];
            long at = 1 + min(points[k] - 1, long(f.D(0) * points[k]));
            long seen, fired;
            long c = op.I(0);
            // an operation may be given up when its partial effects do not
            // matter for the later ones
            bool ev = op.n == "c.eval" || op.n == "c.eval0";
            bool giveup = f.I(2) && w.has(c) && w.meta[c].kind != KDPDF && (op.n == "q" ||
                    (ev && !hasmask && !hascfg));
            // evaluation sets the slope of a shared baseline
            if (ev && w.has(c) && w.meta[c].kind == KPDF)
                for (size_t j = 0; j < w.calc.size(); ++j)
                {
                    auto x = dynamic_cast<PDFCalculator*>(w.calc[c].get());
                    auto y = dynamic_cast<PDFCalculator*>(w.calc[j].get());
                    if (y && y != x && x->getBaseline() == y->getBaseline()) giveup = false;
                }
            Outcome o = armed(w, op, f, at, max(1L, f.I(1, 1)), seen, fired);
            logOutcome(ctx, op, o, "FAULT ");
            if (!fired)
            {
                ref.push_back(op);
                got.push_back(o);
                continue;
            }
            ++nfired;
            string site = f.I(0) ? "alloc" : string("callback.") + seam::g_cb.lastsite;
            ctx.count("fault." + site);
            ctx.feat("F" + site + w.feature(op, o));
            if (o.exc.empty() && !o.skipped)
            {
                if (f.I(0) == 0)
                    ctx.fail("failure-swallowed", "%s succeeded despite of failure in %s", op.str().c_str(), site.c_str());
                // streams may ignore failed allocations
                ref.push_back(op);
                got.push_back(o);
                continue;
            }
            if (giveup)
            {
                ctx.count("fault.abandoned");
                if (ev)
                {
                    Op ab("x.abandon", {c});
                    ref.push_back(ab);
                    got.push_back(w.apply(ab));
                }
                continue;
            }
            Outcome o2 = w.apply(op);
            logOutcome(ctx, op, o2, "retry ");
            ctx.count("fault.retried");
            ref.push_back(op);
            got.push_back(o2);
        }
    }
    if (!nfired) return;
    ctx.count("nontrivial");
    World w;
    Comparer cmp;
    for (size_t k = 0; k < ref.size(); ++k)
    {
        Outcome o = w.apply(ref[k]);
        long c = ref[k].I(0);
        int kind = w.has(c) ? w.meta[c].kind : -1;
        string cls;
        string d = cmp.compare(got[k], o, kind, cls);
        if (!cls.empty())
            ctx.fail(cls, "%s: after failures vs without: %s", ref[k].str().c_str(), d.c_str());
        ctx.count("checked", o.obs.size());
    }
}

static Register reg(Property{"C02", gen, run, preloadTables});

}   // namespace sim
