// C10: masks of pairs and types against an ordered list of rules.
#include "world.hpp"
#include <cmath>
namespace sim {
using namespace std;

// operations besides those of the world:
// f i=kind(0 callback, 1 allocation),nfail,at   the next operation fails once,
//                                               mask operations are then repeated
// snap i=calc                                   calculator goes on as its restored copy

namespace {

// Reference: ordered rules either for indices or for types.
struct MaskModel
{
    struct Rule { int i, j; string a, b; bool m; };
    bool dflt = true;
    int mode = 0;               // 0 none, 1 indices, 2 types
    vector<Rule> rules;
    static bool all(const string& s) { return s == "all" || s == "ALL"; }
    void mallset(bool m) { rules.clear(); mode = 0; dflt = m; }
    void apply(const Op& op)
    {
        if (op.n == "c.mall") mallset(op.I(1));
        else if (op.n == "c.minv") { dflt = !dflt; for (Rule& r : rules) r.m = !r.m; }
        else if (op.n == "c.pmask")
        {
            int i = max(-1L, op.I(1)), j = max(-1L, op.I(2));
            if (i < 0 && j < 0) { mallset(op.I(3)); return; }
            if (mode == 2) rules.clear();
            mode = 1;
            rules.push_back({i, j, "", "", bool(op.I(3))});
        }
        else if (op.n == "c.tmask")
        {
            if (all(op.S(0)) && all(op.S(1))) { mallset(op.I(1)); return; }
            // default of pairs that were masked by indices stays
            if (mode == 1) rules.clear();
            mode = 2;
            rules.push_back({0, 0, op.S(0), op.S(1), bool(op.I(1))});
        }
    }
    bool types(const string& a, const string& b) const
    {
        for (size_t k = rules.size(); k-- > 0; )
        {
            const Rule& r = rules[k];
            bool ra = all(r.a), rb = all(r.b);
            if ((ra || r.a == a) && (rb || r.b == b)) return r.m;
            if ((ra || r.a == b) && (rb || r.b == a)) return r.m;
        }
        return dflt;
    }
    bool allowed(int i, int j, const StructureAdapter& s) const
    {
        if (mode == 2) return types(s.siteAtomType(i), s.siteAtomType(j));
        if (mode == 1) for (size_t k = rules.size(); k-- > 0; )
        {
            const Rule& r = rules[k];
            if ((r.i < 0 || r.i == i) && (r.j < 0 || r.j == j)) return r.m;
            if ((r.i < 0 || r.i == j) && (r.j < 0 || r.j == i)) return r.m;
        }
        return dflt;
    }
};

bool maskop(const Op& op)
{
    return op.n == "c.pmask" || op.n == "c.tmask" || op.n == "c.mall" || op.n == "c.minv";
}

bool pastonly(const Op& op)
{
    return op.n == "c.eval" || op.n == "c.eval0" || op.n == "c.setstru" || op.n == "q" || op.n == "f" || op.n == "snap";
}

}   // namespace

static Scenario gen(uint64_t seed, bool thorough)
{
    Rng r(seed ^ 0xc10);
    GenOptions o;
    static const vector<int> allk = {KPDF, KPDF, KDPDF, KDSUM, KBOND, KBOND, KOVL, KBVS, KPC, KPC};
    o.kinds = {r.pick(allk)};
    if (r.chance(0.2)) o.kinds.push_back(r.pick(allk));
    o.evtype = -1;
    o.cfgstructures = false;
    o.simcomponents = r.chance(0.4);
    o.fastfriendly = r.chance(0.5);
    o.nsteps = thorough ? r.range(6, 50) : r.range(4, 24);
    o.maxatoms = 6;
    Gen g(seed, o);
    for (int k = 0; k < NACTION; ++k) g.wts[k] *= 0.3;
    g.wts[ASTRU] *= 4;
    g.wts[AEDIT] *= 2;
    g.wts[AMASK] = 0;
    for (double& w : g.wts) w = max(w, 0.0);
    g.generate();
    Scenario sc;
    sc.prop = "C10";
    sc.seed = seed;
    const double pm = r.pick(vector<double>{0.15, 0.4, 0.8});
    const double pf = r.chance(0.5) ? 0.0 : r.pick(vector<double>{0.05, 0.2});
    const double ps = r.chance(0.5) ? 0.0 : r.pick(vector<double>{0.05, 0.2});
    // preference of masks by indices or types
    const double ptype = r.pick(vector<double>{0.1, 0.5, 0.9});
    const int ncalc = max<int>(1, g.cc.size());
    const int nidx = r.range(3, 8);
    vector<string> tp = g.types;
    tp.push_back(r.pick(g.pool));
    auto fault = [&]() {
        if (r.chance(pf)) sc.ops.push_back(Op("f", {r.below(2), r.pick(vector<int>{1, 1, 3, 1000000}),
                        long(exp(r.uni(0, log(r.chance(0.3) ? 30. : 3000.))))}));
    };
    auto mask = [&](int c) {
        const bool t = r.chance(ptype);
        double u = r.uni();
        Op op;
        if (u < 0.08) op = Op("c.mall", {c, r.chance(0.5)});
        else if (u < 0.17) op = Op("c.minv", {c});
        else if (t)
        {
            vector<string> s = {r.pick(tp), u < 0.5 ? r.pick(vector<string>{"all", "all", "ALL"}) : r.pick(tp)};
            if (r.chance(0.03)) s[0] = "all";
            if (r.chance(0.5)) swap(s[0], s[1]);
            op = Op("c.tmask", {c, r.chance(0.5)}, {}, s);
        }
        else
        {
            long i = r.below(nidx), j = u < 0.5 ? r.pick(vector<int>{-1, -1, -1, -7}) : r.below(nidx);
            if (r.chance(0.03)) i = -1;
            if (r.chance(0.5)) swap(i, j);
            op = Op("c.pmask", {c, i, j, r.chance(0.5)});
        }
        if (r.chance(pf)) sc.ops.push_back(Op("f", {1, r.pick(vector<int>{1, 1, 3}), r.range(1, 12)}));
        sc.ops.push_back(op);
    };
    for (const Op& op : g.ops)
    {
        bool ev = op.n == "c.eval" || op.n == "c.eval0" || op.n == "c.setstru";
        if (op.n == "c.optq" || (op.n == "c.attr" && op.S(0) == "qstep")) continue;
        if (ev || r.chance(0.1))
            while (r.chance(pm)) mask(op.n.compare(0, 2, "c.") == 0 ? op.I(0) : r.below(ncalc));
        if (r.chance(ps)) sc.ops.push_back(Op("snap", {r.below(ncalc)}));
        if (ev) fault();
        sc.ops.push_back(op);
    }
    return sc;
}

struct Checker
{
    World& w;
    const vector<Op>& ops;
    Ctx& ctx;
    Comparer cmp;
    vector<bool> snapped;

    void masks(int c, const MaskModel& mm)
    {
        const PairQuantity& pq = *w.calc[c];
        const StructureAdapter& s = *pq.getStructure();
        const int n = s.countSites();
        for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j)
        {
            bool e = mm.allowed(i, j, s);
            for (int k = 0; k < 2; ++k)
            {
                bool m = k ? pq.getPairMask(i, j) : pq.getPairMask(j, i);
                if (m != e) ctx.fail("pair-mask", "calculator %d: getPairMask(%d, %d) is %d, expected %d", c, i, j, m, e);
            }
        }
        ctx.count("masks-checked", n * (n + 1) / 2);
    }

    void typemasks(int c, const MaskModel& mm, const set<string>& tps)
    {
        if (mm.mode == 1) return;
        const PairQuantity& pq = *w.calc[c];
        for (const string& a : tps) for (const string& b : tps)
        {
            bool m = pq.getTypeMask(a, b), e = mm.types(a, b);
            if (m != e) ctx.fail("type-mask", "calculator %d: getTypeMask(%s, %s) is %d, expected %d", c, a.c_str(), b.c_str(), m, e);
        }
    }

    void result(int c, size_t upto, const MaskModel& mm, bool explicitdefault)
    {
        const int kind = w.meta[c].kind;
        StructureAdapterPtr s = w.calc[c]->getStructure();
        const int n = s->countSites();
        int nallowed = 0;
        for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) nallowed += mm.allowed(i, j, *s);
        const bool partial = nallowed > 0 && nallowed < n * (n + 1) / 2;
        Outcome a = w.apply(Op("q", {c, -1}));
        logOutcome(ctx, Op("masked", {c}), a);
        ctx.feat(strprintf("%s/%d/%d/%d/%d", kindname(kind), mm.mode, min(nallowed, 12), min(n, 6),
                    int(w.calc[c]->getEvaluatorTypeUsed())));
        // pair counter from bond generator
        if (kind == KPC)
        {
            double cnt = 0;
            BaseBondGeneratorPtr bnds = s->createBondGenerator();
            bnds->setRmin(w.calc[c]->getRmin());
            bnds->setRmax(w.calc[c]->getRmax());
            for (int i = 0; i < n; ++i)
            {
                bnds->selectAnchorSite(i);
                bnds->selectSiteRange(0, i + 1);
                for (bnds->rewind(); !bnds->finished(); bnds->next())
                {
                    int j = bnds->site1();
                    if (mm.allowed(i, j, *s)) cnt += i == j ? 0.5 : 1;
                }
            }
            double v = w.calc[c]->value().at(0);
            if (fabs(v - cnt) > 1e-6) ctx.fail("pair-count", "calculator %d: %g pairs, expected %g", c, v, cnt);
            ctx.count("checked");
            if (partial) ctx.count("nontrivial");
            return;
        }
        // freshly configured calculator with explicit masks
        World f;
        for (size_t k = 0; k < upto; ++k)
        {
            if (maskop(ops[k])) continue;
            // a restored calculator shares no components
            if (ops[k].n == "snap" && snapped[k])
            {
                PQPtr x;
                diffpy::serialization_fromstring(x, diffpy::serialization_tostring(f.calc[ops[k].I(0) & 15]));
                f.calc[ops[k].I(0) & 15] = x;
            }
            if (!pastonly(ops[k])) f.apply(ops[k]);
        }
        if (!f.has(c)) return;
        // structures may have been edited in place, use the current ones
        f.stru = w.stru;
        PQPtr pq = f.calc[c];
        if (fastkind(kind)) pq->setEvaluatorType(BASIC);
        f.meta[c].dirty = false;
        f.meta[c].uncertain = false;
        if (kind == KBOND)
        {
            BondCalculator* all = dynamic_cast<BondCalculator*>(pq.get());
            BondCalculator* used = dynamic_cast<BondCalculator*>(w.calc[c].get());
            all->maskAllPairs(true);
            all->eval(s);
            QuantityType d = all->distances(), du = used->distances(), de;
            SiteIndices s0 = all->sites0(), s1 = all->sites1();
            for (size_t k = 0; k < d.size(); ++k)
                if (mm.allowed(s0[k], s1[k], *s)) de.push_back(d[k]);
            bool same = de.size() == du.size();
            for (size_t k = 0; same && k < de.size(); ++k) same = fabs(de[k] - du[k]) < 1e-8;
            if (!same) ctx.fail("bonds", "calculator %d: %zu bonds, expected %zu", c, du.size(), de.size());
            SiteIndices u0 = used->sites0(), u1 = used->sites1();
            for (size_t k = 0; k < u0.size(); ++k)
                if (!mm.allowed(u0[k], u1[k], *s)) ctx.fail("bonds", "calculator %d: bond of masked pair %d %d", c, u0[k], u1[k]);
        }
        pq->maskAllPairs(explicitdefault);
        for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j)
        {
            bool e = mm.allowed(i, j, *s);
            if (e != explicitdefault) pq->setPairMask(i, j, e);
        }
        pq->eval(s);
        if (kind == KDPDF)
        {
            auto* x = dynamic_cast<DebyePDFCalculator*>(w.calc[c].get());
            auto* y = dynamic_cast<DebyePDFCalculator*>(pq.get());
            if (fabs(x->getDoubleAttr("extendedrmax") - y->getDoubleAttr("extendedrmax")) > 0.5 * x->getRstep())
            {
                ctx.count("range-hysteresis");
                return;
            }
        }
        Outcome b = f.apply(Op("q", {c, -1}));
        string cls, d = cmp.compare(a, b, kind, cls);
        if (!cls.empty()) ctx.fail(cls, "calculator %d: masked vs explicit masks: %s", c, d.c_str());
        ctx.count("checked", a.obs.size());
        if (partial) ctx.count("nontrivial");
        // values add up over single pairs
        if ((kind == KPDF || kind == KDSUM) && n <= 4)
        {
            QuantityType sum(w.calc[c]->value().size(), 0.0), v = w.calc[c]->value();
            for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j)
            {
                if (!mm.allowed(i, j, *s)) continue;
                pq->maskAllPairs(false);
                pq->setPairMask(i, j, true);
                const QuantityType& p = pq->eval(s);
                if (p.size() != sum.size()) return;
                for (size_t k = 0; k < p.size(); ++k) sum[k] += p[k];
            }
            Outcome x, y;
            x.calc = y.calc = a.calc;
            x.obs.push_back(Obs("value", v));
            y.obs.push_back(Obs("value", sum));
            d = cmp.compare(x, y, kind, cls);
            if (!cls.empty()) ctx.fail("sum-of-pairs", "calculator %d: %s", c, d.c_str());
            ctx.count("sums-of-pairs");
        }
    }
};

static void run(const Scenario& sc, Ctx& ctx)
{
    World w;
    vector<MaskModel> mm(16);
    set<string> tps;
    for (const Op& op : sc.ops) if (op.n == "c.tmask")
        for (const string& s : op.s) if (!MaskModel::all(s)) tps.insert(s);
    tps.insert("Zr");
    Checker ck{w, sc.ops, ctx, Comparer(), vector<bool>(sc.ops.size())};
    for (size_t k = 0; k < sc.ops.size(); ++k)
    {
        const Op& op = sc.ops[k];
        const long c = op.I(0) & 15;
        if (op.n == "f") continue;
        if (op.n == "snap")
        {
            if (!w.has(c) || w.meta[c].kind == KPC || w.meta[c].uncertain) continue;
            PQPtr x;
            diffpy::serialization_fromstring(x, diffpy::serialization_tostring(w.calc[c]));
            w.calc[c] = x;
            ck.snapped[k] = true;
            w.meta[c].uncertain = true;     // its structure is now a copy
            ctx.count("fault.crash-restart");
            if (mm[c].mode != 2) ck.typemasks(c, mm[c], tps);
            continue;
        }
        const bool ev = op.n == "c.eval" || op.n == "c.setstru" || op.n == "c.eval0";
        const bool mo = maskop(op);
        Outcome o;
        if (k && sc.ops[k - 1].n == "f" && (ev || mo))
        {
            const Op& f = sc.ops[k - 1];
            if (f.I(0) == 0) seam::cb_arm(f.I(2), max(1L, f.I(1)));
            else seam::alloc_arm(f.I(2), max(1L, f.I(1)));
            o = w.apply(op);
            long fired = f.I(0) == 0 ? seam::g_cb.fired : seam::g_alloc.fired;
            seam::cb_disarm();
            seam::alloc_disarm();
            if (fired) ctx.count(f.I(0) == 0 ? string("fault.callback.") + seam::g_cb.lastsite : string("fault.alloc"));
            if (fired && mo && !o.exc.empty()) o = w.apply(op);
        }
        else o = w.apply(op);
        logOutcome(ctx, op, o);
        if (o.skipped) continue;
        if (op.n == "c.new") mm[c] = MaskModel();
        if (op.n == "c.copy") mm[op.I(1) & 15] = mm[c];
        if (!o.exc.empty()) { if (ev) w.apply(Op("x.abandon", {c})); if (mo) ctx.fail("mask-refused", "%s", op.str().c_str()); continue; }
        if (mo)
        {
            mm[c].apply(op);
            if (op.n == "c.pmask" && op.I(1) >= 0 && op.I(2) >= 0 &&
                    w.calc[c]->getPairMask(op.I(1), op.I(2)) != bool(op.I(3)))
                ctx.fail("pair-mask", "%s not effective", op.str().c_str());
            ck.typemasks(c, mm[c], tps);
        }
        if (ev) ck.masks(c, mm[c]);
        if (op.n == "c.eval" || op.n == "c.eval0") ck.result(c, k, mm[c], (sc.seed + k) & 1);
    }
}

static Register reg(Property{"C10", gen, run, preloadTables});

}   // namespace sim
