// C01: histories with fast updates versus the same histories summed in full.
#include "world.hpp"
namespace sim {
using namespace std;

static Scenario gen(uint64_t seed, bool thorough)
{
    Rng r(seed ^ 0xc01);
    GenOptions o;
    // one or two kinds per history
    vector<int> all = {KPDF, KDPDF, KDSUM, KBOND, KBOND};
    o.kinds = {r.pick(all)};
    if (r.chance(0.3)) o.kinds.push_back(r.pick(all));
    o.evtype = r.chance(0.25) ? 3 : r.chance(0.2) ? -1 : 2;
    o.evaltoggle = r.chance(0.4);
    o.masks = r.chance(0.6);
    o.badatoms = r.chance(0.3);
    o.cfgstructures = r.chance(0.5);
    o.simcomponents = r.chance(0.15);
    o.nsteps = thorough ? r.range(8, 60) : r.range(6, 26);
    Gen g(seed, o);
    g.generate();
    Scenario sc;
    sc.prop = "C01";
    sc.seed = seed;
    sc.ops = g.ops;
    return sc;
}

static void run(const Scenario& sc, Ctx& ctx)
{
    vector<Outcome> test;
    long fast = 0, full = 0;
    {
        World w;
        for (auto& op : sc.ops)
        {
            Outcome o = w.apply(op);
            logOutcome(ctx, op, o);
            if (o.what.find("nconsistent") != string::npos)
                ctx.fail("check-evaluator-inconsistent", "%s: %s", op.str().c_str(), o.what.c_str());
            if (op.n.compare(0, 6, "c.eval") == 0 && op.n != "c.evtype" && o.exc.empty() && !o.skipped)
            {
                (w.calc[op.I(0)]->getEvaluatorTypeUsed() == BASIC ? full : fast) += 1;
            }
            if (o.exc.size()) ctx.count("op.failed");
            ctx.feat(w.feature(op, o));
            test.push_back(o);
        }
    }
    ctx.count("eval.fast", fast);
    ctx.count("eval.full", full);
    if (fast) ctx.count("nontrivial");
    World w;
    w.basiconly = true;
    Comparer cmp;
    for (size_t k = 0; k < sc.ops.size(); ++k)
    {
        Outcome o = w.apply(sc.ops[k]);
        long c = sc.ops[k].I(0);
        int kind = w.has(c) ? w.meta[c].kind : -1;
        string cls;
        string d = cmp.compare(test[k], o, kind, cls);
        if (!cls.empty())
            ctx.fail(cls, "op %zu %s: fast vs full: %s", k, sc.ops[k].str().c_str(), d.c_str());
        ctx.count("checked", o.obs.size());
    }
}

static Register reg(Property{"C01", gen, run, preloadTables});

}   // namespace sim
