// C09: calculators of several tasks interleaved at user callbacks against each
// task run alone in its own process.
#include "world.hpp"
#include <cmath>
#include <algorithm>
#include <cxxabi.h>
#include <memory>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>
namespace sim {
using namespace std;

// K:name ...               operation of the task K, see World
// K:f i=nfail,at           the next operation of the task K fails in a callback
// K:sw i=at,target,burst   its next operation is preempted at a callback; after
//                          burst callbacks elsewhere it continues
// K:nest i=at,target,n     n next operations of the other task run inside its callback
// K:dup i=src              task K begins with deep copies of the objects of src
// cfg period, sseed        random preemption, mean number of callbacks in between

namespace {

struct Item
{
    Op op;
    long fat = 0, fn = 0;
    vector<Op> sw;
};

struct Task
{
    World w;
    vector<Item> items;
    size_t next = 0;
    bool started = false, done = false, inop = false, nested = false;
    long cb = 0;
    vector<Outcome> out;
    ucontext_t uc;
    vector<char> stack;
    char eh[16] = {0};          // exception state of the coroutine
};

int taskof(const Op& op, string& name)
{
    size_t p = op.n.find(':');
    if (p == string::npos || !p) return -1;
    name = op.n.substr(p + 1);
    return min(7, max(0, atoi(op.n.c_str())));
}

// replace everything shared with another world by copies
void deepcopy(const World& src, World& dst)
{
    dst = World();
    map<const void*, boost::shared_ptr<void>> done;
    map<const StructureAdapter*, StructureAdapterPtr> sdone;
    for (size_t k = 0; k < src.stru.size(); ++k)
        if (src.stru[k])
        {
            auto& p = sdone[src.stru[k].get()];
            if (!p)
            {
                StructureAdapterPtr s = src.stru[k];
                // wrappers follow their source, thus they are left out
                if (sourceOf(s) != s) continue;
                p = s->clone();
            }
            dst.stru[k] = p;
        }
    auto cl = [&](auto p, auto f) -> decltype(p) {
        auto& e = done[p.get()];
        if (!e) { auto q = f(p); e = boost::shared_ptr<void>(q, q.get()); return q; }
        return decltype(p)(e, static_cast<typename decltype(p)::element_type*>(e.get()));
    };
    for (size_t c = 0; c < src.calc.size(); ++c)
    {
        if (!src.calc[c] || src.meta[c].kind == KPC) continue;
        PairQuantity& q = *src.calc[c];
        PQPtr p;
        switch (src.meta[c].kind)
        {
            case KPDF: p.reset(new PDFCalculator(dynamic_cast<PDFCalculator&>(q))); break;
            case KDPDF: p.reset(new DebyePDFCalculator(dynamic_cast<DebyePDFCalculator&>(q))); break;
            case KDSUM: p.reset(new BaseDebyeSum(dynamic_cast<BaseDebyeSum&>(q))); break;
            case KBOND: p.reset(new BondCalculator(dynamic_cast<BondCalculator&>(q))); break;
            case KOVL: p.reset(new OverlapCalculator(dynamic_cast<OverlapCalculator&>(q))); break;
            case KBVS: p.reset(new BVSCalculator(dynamic_cast<BVSCalculator&>(q))); break;
            default: continue;
        }
        if (auto x = dynamic_cast<PeakWidthModelOwner*>(p.get()))
            x->setPeakWidthModel(cl(x->getPeakWidthModel(), [](PeakWidthModelPtr a) { return a->clone(); }));
        if (auto x = dynamic_cast<ScatteringFactorTableOwner*>(p.get()))
            x->setScatteringFactorTable(cl(x->getScatteringFactorTable(), [](ScatteringFactorTablePtr a) { return a->clone(); }));
        if (auto x = dynamic_cast<PDFEnvelopeOwner*>(p.get()))
            for (auto& t : x->usedEnvelopeTypes())
                x->addEnvelope(cl(x->getEnvelopeByType(t), [](PDFEnvelopePtr a) { return a->clone(); }));
        if (auto x = dynamic_cast<PDFCalculator*>(p.get()))
        {
            x->setPeakProfile(cl(x->getPeakProfile(), [](PeakProfilePtr a) { return a->clone(); }));
            x->setBaseline(cl(x->getBaseline(), [](PDFBaselinePtr a) { return a->clone(); }));
        }
        if (auto x = dynamic_cast<OverlapCalculator*>(p.get()))
            x->setAtomRadiiTable(cl(x->getAtomRadiiTable(), [](AtomRadiiTablePtr a) { return a->clone(); }));
        if (auto x = dynamic_cast<BVSCalculator*>(p.get()))
            x->setBVParamTable(BVParametersTablePtr(new BVParametersTable(*x->getBVParamTable())));
        StructureAdapterPtr s = boost::const_pointer_cast<StructureAdapter>(p->getStructure());
        if (s)
        {
            auto it = sdone.find(s.get());
            // the structure may have been dropped from the source
            p->setStructure(it != sdone.end() && it->second ? it->second : s->clone());
        }
        dst.calc[c] = p;
        dst.meta[c] = src.meta[c];
        dst.meta[c].dirty = true;
    }
    dst.basiconly = src.basiconly;
}

struct Sched;
Sched* g_sched = 0;

struct Sched
{
    vector<unique_ptr<Task>> t;
    ucontext_t mainuc;
    char maineh[16];
    vector<int> active;         // tasks on the stack of the current coroutine
    vector<vector<int>> stacks; // the same for all coroutines
    int co = -1;                // current coroutine
    long burst = 0;
    int back = -1;
    long period = 0;
    Rng rng;
    long nswitch = 0, nnest = 0, nfault = 0, ncb = 0;
    set<uint64_t> feats;
    uint64_t trace = 0;
    string lastsite;
    bool alone = false;

    bool runnable(int k) const { return k >= 0 && k < int(t.size()) && !t[k]->done && !t[k]->nested; }

    void ehsave(char* p) { memcpy(p, abi::__cxa_get_globals(), 16); }
    void ehload(const char* p) { memcpy(abi::__cxa_get_globals(), p, 16); }

    void enter(int k)
    {
        // from the current context to the coroutine k
        Task& b = *t[k];
        int from = co;
        if (from == k) return;
        ++nswitch;
        if (from >= 0) { stacks[from] = active; ehsave(t[from]->eh); } else ehsave(maineh);
        co = k;
        active = stacks[k];
        if (!b.started)
        {
            b.started = true;
            active.assign(1, k);
            b.stack.resize(512 * 1024);
            getcontext(&b.uc);
            b.uc.uc_stack.ss_sp = b.stack.data();
            b.uc.uc_stack.ss_size = b.stack.size();
            b.uc.uc_link = 0;
            makecontext(&b.uc, (void (*)()) &Sched::entry, 1, k);
        }
        ehload(b.eh);
        swapcontext(from >= 0 ? &t[from]->uc : &mainuc, &b.uc);
    }

    static void entry(int k)
    {
        Sched& s = *g_sched;
        Task& a = *s.t[k];
        while (a.next < a.items.size())
        {
            s.point("boundary");
            // another task could have run its operations
            if (a.next < a.items.size()) s.step(k);
        }
        a.done = true;
        s.tomain();
    }

    void tomain()
    {
        int from = co;
        stacks[from] = active;
        ehsave(t[from]->eh);
        co = -1;
        ehload(maineh);
        swapcontext(&t[from]->uc, &mainuc);
    }

    // run one operation of the task k on the current stack
    void step(int k)
    {
        Task& a = *t[k];
        a.cb = 0;
        a.inop = true;
        Outcome o = a.w.apply(a.items[a.next].op);
        a.out.push_back(o);
        if (!o.exc.empty() && !o.skipped)
        {
            const Op& op = a.items[a.next].op;
            a.w.apply(Op("x.abandon", {op.I(0)}));
        }
        a.inop = false;
        a.next += 1;
    }

    // preemption point
    void point(const char* site)
    {
        if (active.empty() || co < 0) return;
        ++ncb;
        const int me = active.back();
        Task& a = *t[me];
        a.cb += 1;
        const bool inop = a.inop;
        if (inop && a.next < a.items.size())
        {
            const Item& it = a.items[a.next];
            if (!alone)
                for (const Op& op : it.sw)
                {
                    if (op.I(0) != a.cb) continue;
                    int target = (me + 1 + ((op.I(1) % 8) + 8) % 8) % int(t.size());
                    if (op.n == "nest") nest(site, target, max(1L, op.I(2)));
                    else if (target != co && runnable(target)) { back = co; burst = op.I(2); go(site, target); }
                }
            if (it.fat > 0 && a.cb >= it.fat && a.cb < it.fat + it.fn)
            {
                ++nfault;
                seam::throwfault(site, it.fat);
            }
        }
        if (alone) return;
        if (burst > 0 && --burst == 0 && back >= 0 && back != co && runnable(back)) { int k = back; back = -1; go(site, k); return; }
        if (period > 0 && rng.below(int(period)) == 0)
        {
            int k = rng.below(int(t.size()));
            if (k != co && runnable(k)) go(site, k);
        }
    }

    void go(const char* site, int k)
    {
        feats.insert(hashstr(string(site) + ">" + (t[k]->inop ? t[k]->items[t[k]->next].op.n : "-")));
        trace = mix64(trace ^ hashstr(site) ^ uint64_t(k) << 40 ^ uint64_t(ncb));
        enter(k);
    }

    void nest(const char* site, int k, long n)
    {
        Task& b = *t[k];
        // only tasks that are between their operations
        if (find(active.begin(), active.end(), k) != active.end()) return;
        if (b.inop || b.nested || b.done) return;
        b.nested = true;
        active.push_back(k);
        while (n-- > 0 && b.next < b.items.size())
        {
            feats.insert(hashstr(string(site) + ">>" + b.items[b.next].op.n));
            ++nnest;
            step(k);
        }
        active.pop_back();
        b.nested = false;
    }

    void run()
    {
        g_sched = this;
        stacks.resize(t.size());
        seam::g_yield = [](const char* site) { g_sched->point(site); };
        for (bool any = true; any; )
        {
            any = false;
            for (size_t k = 0; k < t.size(); ++k)
                if (runnable(int(k))) { any = true; enter(int(k)); }
        }
        seam::g_yield = 0;
    }
};

void writeall(int fd, const string& s)
{
    size_t p = 0;
    while (p < s.size())
    {
        ssize_t n = write(fd, s.data() + p, s.size() - p);
        if (n <= 0) _exit(9);
        p += n;
    }
}

string inProcess(const function<string()>& f, string& crash)
{
    int pp[2];
    if (pipe(pp)) throw runtime_error("pipe");
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) throw runtime_error("fork");
    if (pid == 0)
    {
        close(pp[0]);
        writeall(pp[1], "K" + f());
        _exit(0);
    }
    close(pp[1]);
    string s;
    char buf[65536];
    ssize_t n;
    while ((n = read(pp[0], buf, sizeof buf)) > 0) s.append(buf, n);
    close(pp[0]);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) { }
    if (WIFSIGNALED(st))
        crash = strprintf("crash:%s", *seam::g_assertmsg ? string(seam::g_assertmsg).substr(0, 200).c_str() : strsignal(WTERMSIG(st)));
    else if (s.empty() || WEXITSTATUS(st)) crash = "crash:exit";
    return s.empty() ? s : s.substr(1);
}

}   // namespace

static Scenario gen(uint64_t seed, bool thorough)
{
    Rng r(seed ^ 0xc09);
    Scenario sc;
    sc.prop = "C09";
    sc.seed = seed;
    const int nt = r.pick(vector<int>{2, 2, 2, 3, 4});
    sc.cfg["tasks"] = nt;
    sc.cfg["sseed"] = long(r.u64() >> 33);
    sc.cfg["period"] = r.chance(0.35) ? 0 : r.pick(vector<int>{2, 3, 7, 20, 100, 1000});
    const bool dup = r.chance(0.3);
    const double psw = r.pick(vector<double>{0.0, 0.2, 0.6}), pnest = r.pick(vector<double>{0.0, 0.1, 0.4}), pf = r.pick(vector<double>{0, 0, 0.1});
    static const vector<int> all = {KPDF, KPDF, KDPDF, KDSUM, KBOND, KOVL, KOVL, KBVS, KPC};
    // tasks of the same kind and with the same atoms share the most static data
    const bool same = r.chance(0.25);
    const int onekind = same ? r.pick(vector<int>{KPDF, KDPDF, KDSUM, KBOND, KOVL, KBVS, KBVS, KBVS}) :
        r.chance(0.4) ? r.pick(all) : -1;
    vector<string> types, pool;
    for (int k = 0; k < nt; ++k)
    {
        GenOptions o;
        o.kinds = {onekind >= 0 ? onekind : r.pick(all)};
        if (r.chance(0.2)) o.kinds.push_back(r.pick(all));
        o.evtype = -1;
        o.masks = r.chance(0.4);
        o.simcomponents = r.chance(0.9);
        o.cfgstructures = r.chance(0.3);
        o.nstru = r.chance(0.7) ? 1 : 0;
        o.maxatoms = 5;
        o.fastfriendly = r.chance(0.6);
        o.nsteps = thorough ? r.range(3, 14) : r.range(2, 7);
        Gen g(r.u64(), o);
        if (same)
        {
            if (k) { g.types = types; g.pool = pool; }
            else
            {
                if (onekind == KBVS) { g.neutral = false; g.pool = goodtypes(); g.types = {"Ti4+", "O2-"}; }
                types = g.types;
                pool = g.pool;
            }
            if (r.chance(0.6)) g.wts[ATABLE] = max(g.wts[ATABLE], 3.0);
        }
        g.generate();
        const string pre = to_string(k) + ":";
        if (dup && k == 1)
        {
            // the first task makes its objects, the second starts with copies
            size_t n = 0;
            while (n < sc.ops.size() && sc.ops[n].n != "0:c.eval") ++n;
            if (n < sc.ops.size() && r.chance(0.7)) n += 1 + r.below(int(sc.ops.size() - n - 1));
            sc.ops.insert(sc.ops.begin() + n, Op("1:dup", {0}));
            // operations of the second task are those of the first from there on or new ones
            if (r.chance(0.5))
            {
                vector<Op> rest(sc.ops.begin() + n + 1, sc.ops.end());
                for (auto& x : rest) { x.n[0] = '1'; sc.ops.push_back(x); }
                continue;
            }
            // electron scattering is not usable in PDFCalculator
            for (auto& x : g.ops) if ((x.n != "c.new" || r.chance(0.3)) && !(x.n == "c.sfttype" && x.S(0) == "electron")) { Op y = x; y.n = pre + y.n; sc.ops.push_back(y); }
            continue;
        }
        for (auto& x : g.ops)
        {
            const bool heavy = x.n == "c.eval" || x.n == "c.eval0" || x.n == "q" || x.n == "c.setstru";
            auto at = [&]() { return long(exp(r.uni(0, log(r.chance(0.5) ? 60. : 3000.)))); };
            if (heavy)
            {
                while (r.chance(psw)) sc.ops.push_back(Op(pre + "sw", {at(), r.below(nt), r.chance(0.4) ? 0 : r.range(1, 200)}));
                if (r.chance(pnest)) sc.ops.push_back(Op(pre + "nest", {at(), r.below(nt), r.range(1, 4)}));
                if (r.chance(pf)) sc.ops.push_back(Op(pre + "f", {r.pick(vector<int>{1, 1, 1000000}), at()}));
            }
            Op y = x;
            y.n = pre + y.n;
            sc.ops.push_back(y);
        }
    }
    return sc;
}

// items of tasks, with operations before dup in front
static void build(const Scenario& sc, vector<vector<Item>>& items, vector<long>& dupat, vector<int>& dupsrc)
{
    const int nt = max(1L, min(8L, sc.C("tasks", 2)));
    items.assign(nt, vector<Item>());
    dupat.assign(nt, -1);
    dupsrc.assign(nt, -1);
    vector<Item> pend(nt);
    for (auto& op : sc.ops)
    {
        string n;
        int k = taskof(op, n);
        if (k < 0 || k >= nt) continue;
        Op x = op;
        x.n = n;
        if (n == "f") { pend[k].fn = max(1L, op.I(0)); pend[k].fat = op.I(1); continue; }
        if (n == "sw" || n == "nest") { pend[k].sw.push_back(x); continue; }
        if (n == "dup")
        {
            int s = op.I(0);
            if (s < 0 || s >= k || dupsrc[s] >= 0 || !items[k].empty() || dupsrc[k] >= 0) continue;
            dupsrc[k] = s;
            dupat[k] = long(items[s].size());
            continue;
        }
        pend[k].op = x;
        items[k].push_back(pend[k]);
        pend[k] = Item();
    }
}

static void run(const Scenario& sc, Ctx& ctx)
{
    vector<vector<Item>> items;
    vector<long> dupat;
    vector<int> dupsrc;
    build(sc, items, dupat, dupsrc);
    const int nt = int(items.size());
    g_simbnds = sc.seed % 4 != 0;
    // each task alone
    vector<vector<Outcome>> ref(nt);
    for (int k = 0; k < nt; ++k)
    {
        string crash;
        string s = inProcess([&]() {
                Sched q;
                q.alone = true;
                q.t.emplace_back(new Task);
                Task& a = *q.t[0];
                if (dupsrc[k] >= 0)
                {
                    Task* b = new Task;
                    q.t.emplace_back(b);
                    b->items.assign(items[dupsrc[k]].begin(), items[dupsrc[k]].begin() + dupat[k]);
                    swap(q.t[0], q.t[1]);
                    q.t.resize(1);
                    q.run();
                    Sched q2;
                    q2.alone = true;
                    q2.t.emplace_back(new Task);
                    Task& a2 = *q2.t[0];
                    deepcopy(q.t[0]->w, a2.w);
                    // its source is gone
                    q.t.clear();
                    a2.items = items[k];
                    q2.run();
                    string rv;
                    for (auto& o : a2.out) rv += o.pack();
                    return rv;
                }
                a.items = items[k];
                q.run();
                string rv;
                for (auto& o : a.out) rv += o.pack();
                return rv;
            }, crash);
        if (!crash.empty()) ctx.fail(crash, "task %d alone", k);
        for (size_t p = 0; p < s.size(); ) ref[k].push_back(Outcome::unpack(s, p));
    }
    // all together
    Sched q;
    q.rng = Rng(sc.C("sseed"));
    q.period = sc.C("period");
    for (int k = 0; k < nt; ++k) { q.t.emplace_back(new Task); q.t[k]->items = items[k]; }
    // sources of copies run first
    for (int k = 0; k < nt; ++k)
    {
        if (dupsrc[k] < 0) continue;
        Task& src = *q.t[dupsrc[k]];
        Sched p;
        p.alone = true;
        p.t.emplace_back(new Task);
        Task& b = *p.t[0];
        swap(b.w, src.w);
        swap(b.items, src.items);
        swap(b.out, src.out);
        vector<Item> rest(b.items.begin() + max<long>(src.next, dupat[k]), b.items.end());
        vector<Item> full = b.items;
        b.items.resize(max<long>(src.next, dupat[k]));
        b.next = src.next;
        p.run();
        swap(b.w, src.w);
        swap(b.out, src.out);
        src.items = full;
        src.next = b.next;
        deepcopy(src.w, q.t[k]->w);
        ctx.count("deep-copies");
    }
    q.run();
    for (int k = 0; k < nt; ++k)
    {
        Task& a = *q.t[k];
        Comparer cmp;
        cmp.rtol = 1e-10;
        if (a.out.size() != ref[k].size())
            ctx.fail("history", "task %d made %zu operations, %zu expected", k, a.out.size(), ref[k].size());
        for (size_t j = 0; j < a.out.size(); ++j)
        {
            const Op& op = a.items[j].op;
            logOutcome(ctx, op, a.out[j], strprintf("%d: ", k).c_str());
            string cls;
            const int c = a.out[j].calc;
            a.out[j].what = ref[k][j].what = "";
            string d = cmp.compare(ref[k][j], a.out[j], c >= 0 && c < int(a.w.meta.size()) ? a.w.meta[c].kind : 0, cls);
            if (!cls.empty()) ctx.fail(cls, "task %d operation %zu %s: alone vs interleaved: %s", k, j, op.str().c_str(), d.c_str());
            ctx.count("checked", a.out[j].obs.size());
        }
    }
    ctx.log("switches %ld nested %ld faults %ld callbacks %ld trace %lx", q.nswitch, q.nnest, q.nfault, q.ncb, q.trace);
    ctx.count("switches", q.nswitch);
    ctx.count("nested-operations", q.nnest);
    ctx.count("callbacks", q.ncb);
    if (q.nfault) ctx.count("fault.callback", q.nfault);
    if (q.nswitch) ctx.count("fault.stalled-task", q.nswitch);
    for (auto f : q.feats) ctx.feat(f);
    ctx.feat(q.trace);
    if (q.nswitch > nt || q.nnest) ctx.count("nontrivial");
}

static Register reg(Property{"C09", gen, run, preloadTables});

}   // namespace sim
