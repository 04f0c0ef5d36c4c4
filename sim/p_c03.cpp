// C03: a master that distributes an evaluation to workers over a faulty
// network, compared with serial evaluations in the same history.
// C04: malformed and surplus messages in a merge.
#include "world.hpp"
#include <algorithm>
#include <cmath>
#include <memory>
#include <queue>
namespace sim {
using namespace std;

// round i=calc,stru,ncpu,nworkers,mode,seed d=ploss,pdup,pcrash,pslow,pfail
//   mode 0 workers get a snapshot of the calculator with every task
//        1 workers keep own replicas and follow the master's operations,
//          a crashed worker repeats all operations from the start
//        2 as 1, but a crashed worker restarts from a snapshot of the master
static bool isround(const Op& op) { return op.n == "round"; }
static bool workerskips(const Op& op)
{
    return op.n == "c.eval" || op.n == "c.eval0" || op.n == "c.setstru" ||
        op.n == "q" || op.n == "x.abandon" || isround(op) || op.n == "bad";
}

static GenOptions options(Rng& r, uint64_t seed, bool thorough, int& mode)
{
    GenOptions o;
    static const vector<int> all = {KPDF, KPDF, KDPDF, KDSUM, KBOND, KBOND, KOVL, KBVS, KPC};
    o.kinds = {r.pick(all)};
    if (r.chance(0.35)) o.kinds.push_back(r.pick(all));
    bool pc = false, dpdf = false;
    for (int k : o.kinds) { pc |= k == KPC; dpdf |= k == KDPDF; }
    if (pc && dpdf) { o.kinds = {KPC}; dpdf = false; }
    mode = pc ? 1 : dpdf ? 0 : r.below(3);
    o.evtype = -1;
    o.evaltoggle = r.chance(0.5);
    o.masks = r.chance(0.5);
    o.badatoms = false;
    o.cfgstructures = mode == 0 && r.chance(0.4);
    o.simcomponents = r.chance(0.4);
    o.fastfriendly = r.chance(0.6);
    o.nsteps = thorough ? r.range(4, 24) : r.range(3, 10);
    o.maxatoms = 7;
    return o;
}

static Scenario gen03(uint64_t seed, bool thorough)
{
    Rng r(seed ^ 0xc03);
    int mode;
    GenOptions o = options(r, seed, thorough, mode);
    Gen g(seed, o);
    // structures that configure calculators do it in evaluation, which the
    // workers with replicas do not follow
    g.generate();
    Scenario sc;
    sc.prop = "C03";
    sc.seed = seed;
    vector<double> p(5);
    for (auto& x : p) x = r.chance(0.4) ? 0.0 : r.pick(vector<double>{0.02, 0.1, 0.3});
    int nw = r.range(1, 6);
    double pround = r.pick(vector<double>{0.5, 0.8, 1.0});
    const bool samencpu = r.chance(0.4);
    int ncpu0 = r.range(2, 5);
    if (samencpu) nw = r.range(2, 6);
    for (auto& op : g.ops)
    {
        if (op.n == "c.eval" && r.chance(pround))
        {
            int ncpu = samencpu ? ncpu0 : r.chance(0.15) ? 1 : r.chance(0.3) ? r.range(8, 40) : r.range(2, 7);
            sc.ops.push_back(Op("round", {op.I(0), op.I(1), ncpu, nw, mode, long(r.u64() >> 33)}, p));
        }
        else sc.ops.push_back(op);
    }
    return sc;
}

struct Worker
{
    unique_ptr<World> w;        // replicas
    size_t pos = 0;             // operations followed so far
    PQPtr copy;                 // calculator from a snapshot
    // part numbers that are already set up in calculators of this worker
    map<int, tuple<const void*, int, int>> setup;
    long incarnation = 0;
    bool up = true;
};

struct Event
{
    long t, seq;
    int what;                   // 0 task, 1 result, 2 timer, 3 restart
    int worker, k, ncpu, c, s;
    long epoch;
    string data;
    bool operator<(const Event& e) const { return t != e.t ? t > e.t : seq > e.seq; }
};

struct Cluster
{
    Ctx& ctx;
    const vector<Op>& ops;
    World& master;
    vector<Worker> workers;
    vector<Event> stale;        // messages left over from former rounds
    long epoch = 0;
    Cluster(Ctx& c, const vector<Op>& o, World& m) : ctx(c), ops(o), master(m) { }

    void follow(Worker& w, size_t k, bool snapshot)
    {
        if (!w.w)
        {
            w.w.reset(new World);
            w.setup.clear();
            w.pos = 0;
            if (snapshot)
            {
                w.w->load(master.save());
                w.pos = k;
            }
        }
        for (; w.pos < k; ++w.pos)
        {
            const Op& op = ops[w.pos];
            if (workerskips(op)) continue;
            w.w->apply(op);
            if (op.n == "c.copy" || op.n == "c.new" || op.n == "c.drop" || op.n == "c.evtype") w.setup.clear();
        }
    }

    Outcome round(size_t at)
    {
        const Op& op = ops[at];
        Outcome out;
        const int c = op.I(0), s = op.I(1);
        const int ncpu = max(1L, min(64L, op.I(2, 2)));
        const int nw = max(1L, min(8L, op.I(3, 1)));
        const int mode = op.I(4);
        if (!master.has(c) || !master.hass(s)) { out.skipped = true; return out; }
        if (int(workers.size()) < nw) workers.resize(nw);
        Rng r(op.I(5));
        const double ploss = op.D(0), pdup = op.D(1), pcrash = op.D(2), pslow = op.D(3), pfail = op.D(4);
        ++epoch;
        out = master.apply(Op("c.setstru", {c, s}));
        if (!out.exc.empty() || out.skipped) return out;
        PQPtr shadow;
        string snap;
        if (mode == 0) snap = diffpy::serialization_tostring(master.calc[c]);
        priority_queue<Event> q;
        long seq = 0, now = 0;
        const long TF = 3000;   // no fault after this time
        vector<int> merged(ncpu, 0), attempt(ncpu, 0);
        int nmerged = 0;
        auto faulty = [&]() { return now < TF; };
        auto delay = [&]() { return 1 + r.below(10) + (faulty() && r.chance(pslow) ? r.below(400) : 0); };
        auto post = [&](Event e, const char* name) {
            int copies = 1;
            if (faulty() && r.chance(ploss)) { copies = 0; ctx.count(string("fault.lost-") + name); }
            else if (faulty() && r.chance(pdup)) { copies = 2; ctx.count(string("fault.duplicated-") + name); }
            while (copies--) { e.t = now + delay(); e.seq = seq++; q.push(e); }
        };
        auto sendtask = [&](int k) {
            Event e{0, 0, 0, (k + attempt[k]) % nw, k, ncpu, c, s, epoch, ""};
            post(e, "task");
            Event t{now + 150 + 100 * attempt[k], seq++, 2, 0, k, ncpu, c, s, epoch, ""};
            q.push(t);
        };
        for (Event e : stale) { e.t = now + r.below(60); e.seq = seq++; q.push(e); }
        stale.clear();
        for (auto& w : workers) { w.copy.reset(); w.setup.erase(-1); }
        for (int k = 0; k < ncpu; ++k) sendtask(k);
        long steps = 0;
        vector<int> order;
        while (nmerged < ncpu)
        {
            if (++steps > 20000 || q.empty())
                ctx.fail("no-progress", "%s: %d of %d parts merged after %ld events", op.str().c_str(), nmerged, ncpu, steps);
            Event e = q.top();
            q.pop();
            now = max(now, e.t);
            Worker& w = workers[e.worker % workers.size()];
            if (e.what == 2)
            {
                if (merged[e.k] || e.epoch != epoch) continue;
                ++attempt[e.k];
                ctx.count("task.reassigned");
                sendtask(e.k);
            }
            else if (e.what == 3) w.up = true;
            else if (e.what == 0)
            {
                if (!w.up) { ctx.count("fault.task-to-dead-worker"); continue; }
                auto crash = [&]() {
                    w.w.reset();
                    w.copy.reset();
                    w.up = false;
                    ++w.incarnation;
                    ctx.count("fault.worker-crash");
                    Event x{now + 20 + r.below(200), seq++, 3, e.worker, 0, 0, 0, 0, epoch, ""};
                    q.push(x);
                };
                if (faulty() && r.chance(pcrash * 0.5)) { crash(); continue; }
                PQPtr pq;
                // messages from an earlier round use the present state
                if (mode == 0)
                {
                    if (!w.copy || r.chance(0.5)) { w.setup.clear(); diffpy::serialization_fromstring(w.copy, snap); }
                    pq = w.copy;
                }
                else
                {
                    follow(w, at, mode == 2);
                    if (!w.w->has(e.c) || !w.w->hass(e.s)) continue;
                    pq = w.w->calc[e.c];
                }
                const bool inject = faulty() && r.chance(pfail);
                const long failat = 1 + r.below(60);
                string data, exc;
                try
                {
                    // workers that compute the same part again need no new setup
                    auto su = make_tuple((const void*)(pq.get()), e.k, e.ncpu);
                    auto& su0 = w.setup[mode == 0 ? -1 : e.c];
                    if (su0 != su || r.chance(0.2)) pq->setupParallelRun(e.k, e.ncpu);
                    else ctx.count("task.without-setup");
                    su0 = su;
                    // the part persists over other evaluator, copy and restart
                    if (r.chance(0.15))
                    {
                        PQEvaluatorType tp = pq->getEvaluatorType();
                        pq->setEvaluatorType(tp == BASIC && fastkind(master.meta[e.c].kind) ? OPTIMIZED : BASIC);
                        pq->setEvaluatorType(tp);
                        ctx.count("task.after-evaluator-change");
                    }
                    if (mode == 0 && r.chance(0.15))
                    {
                        diffpy::serialization_fromstring(w.copy, diffpy::serialization_tostring(pq));
                        pq = w.copy;
                        su0 = make_tuple((const void*)(pq.get()), e.k, e.ncpu);
                        ctx.count("fault.worker-restart-after-setup");
                    }
                    if (inject) seam::cb_arm(failat, 1);
                    if (mode == 0) { if (r.chance(0.5)) pq->eval(); else pq->eval(pq->getStructure()); }
                    else pq->eval(w.w->stru[e.s]);
                    seam::cb_disarm();
                    data = pq->getParallelData();
                }
                catch (const seam::SimFault&)
                {
                    seam::cb_disarm();
                    ctx.count("fault.worker-callback-error");
                    continue;
                }
                catch (const seam::SimLogicFault&)
                {
                    seam::cb_disarm();
                    ctx.count("fault.worker-callback-error");
                    continue;
                }
                catch (const seam::SimAlienFault&)
                {
                    seam::cb_disarm();
                    ctx.count("fault.worker-callback-error");
                    continue;
                }
                catch (const exception& x)
                {
                    seam::cb_disarm();
                    if (e.epoch != epoch) continue;
                    out.exc = demangle(typeid(x).name());
                    out.what = x.what();
                    return out;
                }
                ctx.count("task.done");
                if (faulty() && r.chance(pcrash * 0.5)) { crash(); continue; }
                Event x{0, 0, 1, e.worker, e.k, e.ncpu, e.c, e.s, e.epoch, data};
                post(x, "result");
            }
            else
            {
                if (e.epoch != epoch) { ctx.count("fault.result-of-former-round"); continue; }
                if (merged[e.k]) { ctx.count("fault.repeated-result"); continue; }
                PQPtr pq = master.calc[c];
                if (nmerged > 0 && r.chance(0.15))
                {
                    // premature look at the incomplete result
                    vector<Obs> dummy;
                    try { master.observe(c, -1, dummy, false); }
                    catch (const Viol&) { throw; }
                    catch (const exception&) { }
                    ctx.count("premature-queries");
                }
                if (!shadow && master.meta[c].kind != KPC && r.chance(pcrash))
                {
                    // the master ends and is replaced from its snapshot
                    diffpy::serialization_fromstring(shadow, diffpy::serialization_tostring(pq));
                    ctx.count("fault.master-restart");
                }
                pq->mergeParallelData(e.data, ncpu);
                if (shadow) shadow->mergeParallelData(e.data, ncpu);
                merged[e.k] = 1;
                order.push_back(e.k);
                ++nmerged;
            }
        }
        if (shadow && shadow->value() != master.calc[c]->value())
            ctx.fail("restarted-master-differs", "%s: master restarted between results of %d workers has other values",
                    kindname(master.meta[c].kind), ncpu);
        if (!is_sorted(order.begin(), order.end())) ctx.count("fault.reordered-results-rounds");
        ctx.count("simulated.ms", now);
        // keep few of the undelivered messages for the next round
        while (!q.empty() && stale.size() < 4)
        {
            Event e = q.top();
            q.pop();
            if (e.what <= 1) stale.push_back(e);
        }
        for (auto& w : workers) w.up = true;
        master.meta[c].dirty = false;
        ctx.count("rounds");
        if (ncpu > 1) ctx.count("nontrivial");
        uint64_t h = 0;
        for (int k : order) h = mix64(h + k);
        ctx.feat(mix64(h) ^ ncpu);
        ctx.feat(strprintf("round/%s/n%d/w%d/m%d/e%d", kindname(master.meta[c].kind), ncpu, nw, mode,
                    int(master.calc[c]->getEvaluatorType())));
        return out;
    }
};

static void run03(const Scenario& sc, Ctx& ctx)
{
    World m, twin;
    Cluster cl(ctx, sc.ops, m);
    Comparer cmp;
    for (size_t k = 0; k < sc.ops.size(); ++k)
    {
        const Op& op = sc.ops[k];
        const long c = op.I(0);
        Outcome a, b;
        if (isround(op))
        {
            a = cl.round(k);
            b = twin.apply(Op("c.eval", {c, op.I(1)}));
            a.what = b.what = "";
        }
        else
        {
            a = m.apply(op);
            b = twin.apply(op);
        }
        logOutcome(ctx, op, a);
        int kind = m.has(c) ? m.meta[c].kind : -1;
        string cls, d = cmp.compare(a, b, kind, cls);
        if (!cls.empty()) ctx.fail(cls, "op %zu %s: parallel vs serial: %s", k, op.str().c_str(), d.c_str());
        ctx.count("checked", a.obs.size());
        ctx.feat(m.feature(op, a));
        if (isround(op) && !a.exc.empty())
        {
            m.apply(Op("x.abandon", {c}));
            twin.apply(Op("x.abandon", {c}));
        }
    }
}

static Register reg03(Property{"C03", gen03, run03, preloadTables});

// --- C04 ---------------------------------------------------------------------

// round i=calc,stru,ncpu,0,0,seed d=pbad
static Scenario gen04(uint64_t seed, bool thorough)
{
    Rng r(seed ^ 0xc04);
    int mode;
    GenOptions o = options(r, seed, thorough, mode);
    o.nsteps = thorough ? r.range(3, 16) : r.range(2, 7);
    o.simcomponents = r.chance(0.1);
    Gen g(seed, o);
    g.generate();
    Scenario sc;
    sc.prop = "C04";
    sc.seed = seed;
    double pbad = r.pick(vector<double>{0.2, 0.5, 0.9});
    for (auto& op : g.ops)
    {
        if (op.n == "c.eval" && r.chance(0.8))
        {
            int ncpu = r.chance(0.2) ? 1 : r.range(2, 6);
            sc.ops.push_back(Op("round", {op.I(0), op.I(1), ncpu, 0, 0, long(r.u64() >> 33)}, {pbad}));
        }
        else sc.ops.push_back(op);
    }
    return sc;
}

// parallel data of the vector form used by all but the bond calculator
static string vectordata(const QuantityType& v)
{
    ostringstream storage(ios::binary);
    diffpy::serialization::oarchive oa(storage, ios::binary);
    oa << v;
    return storage.str();
}

// master that has never seen the structure, possible when the merged data do
// not need it
static void coldmaster(StructureAdapterPtr stru, int kind, int ncpu, Ctx& ctx)
{
    auto fresh = [&]() {
        PQPtr p;
        switch (kind)
        {
            case KBOND: p.reset(new BondCalculator); break;
            case KOVL: p.reset(new OverlapCalculator); break;
            case KPC: p.reset(new PairCounter); break;
            default: break;
        }
        if (p) p->setRmax(4.1);
        return p;
    };
    PQPtr serial = fresh();
    if (!serial) return;
    vector<string> parts(ncpu);
    try
    {
        serial->eval(stru);
        for (int k = 0; k < ncpu; ++k)
        {
            PQPtr w = fresh();
            w->setupParallelRun(k, ncpu);
            w->eval(stru);
            parts[k] = w->getParallelData();
        }
    }
    catch (const exception& e) { return; }
    PQPtr master = fresh();
    for (int k = 0; k < ncpu; ++k)
    {
        try { master->mergeParallelData(parts[k], ncpu); }
        catch (const exception& e)
        {
            ctx.fail("correct-part-refused", "new %s: part %d of %d: %s %s", kindname(kind), k, ncpu,
                    demangle(typeid(e).name()).c_str(), e.what());
        }
    }
    QuantityType x = serial->value(), y = master->value();
    // overlaps are reported in the order of merging
    if (kind == KOVL) { sort(x.begin(), x.end()); sort(y.begin(), y.end()); }
    bool ok = x.size() == y.size();
    for (size_t k = 0; ok && k < x.size(); ++k) ok = fabs(x[k] - y[k]) <= 1e-9 * (1 + fabs(x[k]));
    if (!ok) ctx.fail("new-master-differs", "new %s merged from %d parts differs from serial", kindname(kind), ncpu);
    bool raised = false;
    try { master->mergeParallelData(parts[0], ncpu); }
    catch (const exception& e) { raised = true; }
    if (!raised) ctx.fail("accepted-surplus-part", "new %s: surplus part accepted", kindname(kind));
    ctx.count("cold-merges");
}

static Outcome round04(World& m, const Op& op, Ctx& ctx)
{
    Outcome out;
    const int c = op.I(0), s = op.I(1);
    const int ncpu = max(1L, min(16L, op.I(2, 2)));
    if (!m.has(c) || !m.hass(s)) { out.skipped = true; return out; }
    Rng r(op.I(5));
    const double pbad = op.D(0);
    const int kind = m.meta[c].kind;
    // correct parts are evaluated by the master's own copy of history
    vector<string> parts(ncpu);
    PQPtr pq = m.calc[c];
    if (kind == KPC)
    {
        // cannot be copied, parts are evaluated in the master itself
        try
        {
            for (int k = 0; k < ncpu; ++k)
            {
                pq->setupParallelRun(k, ncpu);
                pq->eval(m.stru[s]);
                parts[k] = pq->getParallelData();
            }
            pq->setupParallelRun(0, 1);
        }
        catch (const exception& e)
        {
            pq->setupParallelRun(0, 1);
            out.exc = demangle(typeid(e).name());
            return out;
        }
    }
    out = m.apply(Op("c.setstru", {c, s}));
    if (!out.exc.empty() || out.skipped) return out;
    QuantityType foreign;
    try
    {
        string snap;
        if (kind != KPC) snap = diffpy::serialization_tostring(pq);
        for (int k = 0; k < ncpu && kind != KPC; ++k)
        {
            PQPtr w;
            diffpy::serialization_fromstring(w, snap);
            w->setupParallelRun(k, ncpu);
            w->eval();
            parts[k] = w->getParallelData();
        }
    }
    catch (const exception& e)
    {
        out.exc = demangle(typeid(e).name());
        return out;
    }
    vector<int> order(ncpu);
    for (int k = 0; k < ncpu; ++k) order[k] = k;
    for (int k = ncpu - 1; k > 0; --k) swap(order[k], order[r.below(k + 1)]);
    auto bad = [&](const char* what, const string& data, int n) {
        QuantityType before = pq->value();
        string pdata = pq->getParallelData();
        bool raised = false;
        try { pq->mergeParallelData(data, n); }
        catch (const exception& e) { raised = true; ctx.log("%s refused: %s", what, demangle(typeid(e).name()).c_str()); }
        ctx.count(string("fault.") + what);
        ctx.feat(string(what) + kindname(kind));
        if (!raised) ctx.fail(string("accepted-") + what, "%s: %s accepted", kindname(kind), what);
        if (before != pq->value() || pdata != pq->getParallelData())
            ctx.fail(string("changed-by-") + what, "%s: accumulated result changed by refused %s", kindname(kind), what);
        ctx.count("nontrivial");
    };
    auto maybebad = [&](int nmerged) {
        while (r.chance(pbad))
        {
            const string& good = parts[r.below(ncpu)];
            size_t at = r.chance(0.2) ? 0 : r.chance(0.2) ? good.size() - 1 : r.below(int(good.size()));
            switch (r.below(3))
            {
                case 0:
                    if (nmerged < ncpu) bad("truncated-part", good.substr(0, at), ncpu);
                    break;
                case 1:
                {
                    // wrong size
                    if (kind == KBOND || nmerged >= ncpu) break;
                    QuantityType v = pq->value();
                    if (kind == KOVL)
                    {
                        // any multiple of the size of pair data is valid
                        v.resize(6 * r.below(4) + 1 + r.below(5), 1.0);
                    }
                    else
                    {
                        size_t n = v.size();
                        size_t k = r.chance(0.3) ? n + 1 : r.chance(0.3) ? 2 * n + 1 : r.below(int(n) + 40);
                        if (r.chance(0.15)) k = 0;
                        if (k == n) ++k;
                        v.resize(k, 0.25);
                        for (auto& x : v) x += 0.5;
                    }
                    bad("foreign-size-part", vectordata(v), ncpu);
                    break;
                }
                default:
                    // more parts than declared
                    if (nmerged > 0) bad("surplus-part", good, r.range(1, nmerged));
                    break;
            }
        }
    };
    for (int k = 0; k < ncpu; ++k)
    {
        maybebad(k);
        try { pq->mergeParallelData(parts[order[k]], ncpu); }
        catch (const exception& e)
        {
            ctx.fail("correct-part-refused", "%s: part %d of %d: %s %s", kindname(kind), k, ncpu,
                    demangle(typeid(e).name()).c_str(), e.what());
        }
    }
    maybebad(ncpu);
    m.meta[c].dirty = false;
    if (r.chance(0.4)) coldmaster(m.stru[s], kind, ncpu, ctx);
    return out;
}

static void run04(const Scenario& sc, Ctx& ctx)
{
    World m, twin;
    Comparer cmp;
    for (size_t k = 0; k < sc.ops.size(); ++k)
    {
        const Op& op = sc.ops[k];
        const long c = op.I(0);
        Outcome a, b;
        if (isround(op))
        {
            a = round04(m, op, ctx);
            b = twin.apply(Op("c.eval", {c, op.I(1)}));
            a.what = b.what = "";
        }
        else { a = m.apply(op); b = twin.apply(op); }
        logOutcome(ctx, op, a);
        int kind = m.has(c) ? m.meta[c].kind : -1;
        string cls, d = cmp.compare(a, b, kind, cls);
        if (!cls.empty()) ctx.fail(cls, "op %zu %s: merged vs serial: %s", k, op.str().c_str(), d.c_str());
        ctx.count("checked", a.obs.size());
        if (isround(op) && !a.exc.empty())
        {
            m.apply(Op("x.abandon", {c}));
            twin.apply(Op("x.abandon", {c}));
        }
    }
}

static Register reg04(Property{"C04", gen04, run04, preloadTables});

}   // namespace sim
