// C05: a chain of processes that restore and save snapshots, compared with one
// process that runs all the time.
#include "world.hpp"
#include <cerrno>
#include <climits>
#include <csignal>
#include <sys/wait.h>
#include <unistd.h>
namespace sim {
using namespace std;

// r i=skewfirst,skewmode: save, continue in a new process with a skewed clock
// trunc i=calc d=fraction: a truncated snapshot of calculator must be refused
// mset i=calc,stru,n: calculator becomes master of n parallel parts
// mpart i=calc,k: part k is evaluated by a copy of the master and merged
static Scenario gen(uint64_t seed, bool thorough)
{
    Rng r(seed ^ 0xc05);
    GenOptions o;
    vector<int> all = {KPDF, KPDF, KDPDF, KDSUM, KBOND, KOVL, KBVS};
    o.kinds = {r.pick(all)};
    if (r.chance(0.5)) o.kinds.push_back(r.pick(all));
    o.evtype = -1;
    o.badatoms = r.chance(0.1);
    o.masks = r.chance(0.6);
    o.simcomponents = r.chance(0.2);
    o.cfgstructures = r.chance(0.3);
    o.ncalc = r.chance(0.4) ? 1 : r.range(2, 3);
    o.nsteps = thorough ? r.range(6, 36) : r.range(4, 16);
    Gen g(seed, o);
    g.wts[AEVAL] *= 0.7;
    g.wts[ASHARE] *= 2;
    g.generate();
    Scenario sc;
    sc.prop = "C05";
    sc.seed = seed;
    int n = int(g.ops.size());
    Rng rm(seed ^ 0x6d657267);
    const double pmerge = rm.chance(0.3) ? 0.4 : 0.0;
    double p = r.pick(vector<double>{0.05, 0.15, 0.3});
    bool any = false;
    for (int k = 0; k < n; ++k)
    {
        const Op& op = g.ops[k];
        if (op.n == "c.eval" && rm.chance(pmerge))
        {
            const long c = op.I(0);
            const int np = rm.range(1, 4);
            sc.ops.push_back(Op("mset", {c, op.I(1), np}));
            // some parts more than declared
            for (int j = 0; j < np + (rm.chance(0.5) ? 1 : 0); ++j)
            {
                if (rm.chance(0.4)) sc.ops.push_back(Op("r", {rm.below(6), rm.range(0, 2000)})), any = true;
                if (rm.chance(0.1)) sc.ops.push_back(Op("one", {c}));
                sc.ops.push_back(Op("mpart", {c, j}));
            }
            sc.ops.push_back(Op("q", {c, -1}));
        }
        else sc.ops.push_back(op);
        bool early = op.n == "s.new" || op.n == "s.add" || op.n == "c.new";
        if (r.chance(early ? p * 0.1 : p) || (!any && k == n - 3))
        {
            any = true;
            sc.ops.push_back(Op("r", {r.below(6), r.range(0, 2000)}));
            if (r.chance(0.5)) sc.ops.push_back(Op("q", {r.below(3), -1}));
        }
        if (r.chance(0.03)) sc.ops.push_back(Op("trunc", {r.below(3)}, {r.chance(0.3) ? 0.9999 : r.uni()}));
        if (r.chance(0.02)) sc.ops.push_back(Op("one", {r.below(3)}));
    }
    return sc;
}

static void writeall(int fd, const string& s)
{
    size_t p = 0;
    while (p < s.size())
    {
        ssize_t n = write(fd, s.data() + p, s.size() - p);
        if (n < 0 && errno == EINTR) continue;
        if (n <= 0) _exit(9);
        p += n;
    }
}

static string readall(int fd)
{
    string rv;
    char buf[65536];
    ssize_t n;
    while ((n = read(fd, buf, sizeof buf)) != 0)
    {
        if (n < 0) { if (errno == EINTR) continue; break; }
        rv.append(buf, n);
    }
    return rv;
}

struct Seg { vector<Outcome> out; string snap; string bad; };

static Outcome mergepart(World& w, long c, long k)
{
    Outcome o;
    CalcMeta* m = w.has(c) ? &w.meta[c] : nullptr;
    if (!m || !m->nparts) { o.skipped = true; return o; }
    const bool surplus = !m->nmissing;
    try
    {
        PQPtr worker;
        diffpy::serialization_fromstring(worker, diffpy::serialization_tostring(w.calc[c]));
        worker->setupParallelRun(int(k % m->nparts), m->nparts);
        worker->eval();
        w.calc[c]->mergeParallelData(worker->getParallelData(), m->nparts);
        m->nmissing -= 1;
        if (!m->nmissing) m->dirty = false;
    }
    catch (const exception& e)
    {
        o.exc = demangle(typeid(e).name());
        o.what = e.what();
        if (surplus) return o;
        m->nparts = 0;
        m->dirty = m->uncertain = true;
    }
    return o;
}

static string runSegment(World& w, const vector<Op>& ops, size_t a, size_t b, bool restored)
{
    string rv;
    for (size_t k = a; k < b; ++k)
    {
        const Op& op = ops[k];
        Outcome o;
        if (op.n == "r") continue;
        else if (op.n == "one")
        {
            // snapshot of one calculator alone, it continues as the copy
            long c = op.I(0);
            // queries may adjust the cached ranges, make them in both histories
            vector<Obs> oa, ob;
            string s;
            if (!w.has(c)) o.skipped = true;
            else
            {
                s = diffpy::serialization_tostring(w.calc[c]);
                w.observe(c, -1, oa, w.meta[c].dirty || w.meta[c].uncertain);
            }
            if (w.has(c) && restored)
            {
                PQPtr q;
                diffpy::serialization_fromstring(q, s);
                World t;
                t.calc[c] = q;
                t.meta[c] = w.meta[c];
                t.observe(c, -1, ob, w.meta[c].dirty || w.meta[c].uncertain);
                Outcome x, y;
                x.obs = oa; y.obs = ob;
                Comparer cmp;
                string cls, d = cmp.compare(x, y, w.meta[c].kind, cls);
                if (!cls.empty()) o.what = "COPY " + cls + " " + d;
            }
        }
        else if (op.n == "trunc")
        {
            long c = op.I(0);
            if (!w.has(c)) o.skipped = true;
            else if (restored)
            {
                string s = diffpy::serialization_tostring(w.calc[c]);
                size_t n = min(s.size() - 1, size_t(op.D(0) * s.size()));
                PQPtr q;
                bool raised = false;
                try { diffpy::serialization_fromstring(q, s.substr(0, n)); }
                catch (const exception&) { raised = true; }
                if (!raised) o.what = strprintf("TRUNCATED %zu of %zu bytes accepted", n, s.size());
            }
        }
        else if (op.n == "mset")
        {
            long c = op.I(0);
            o = w.apply(Op("c.setstru", {c, op.I(1)}));
            if (!o.exc.empty()) w.apply(Op("x.abandon", {c}));
            if (w.has(c)) w.meta[c].nparts = w.meta[c].nmissing = o.exc.empty() && !o.skipped ? max(1L, op.I(2)) : 0;
        }
        else if (op.n == "mpart") o = mergepart(w, op.I(0), op.I(1));
        else o = w.apply(op);
        rv += o.pack();
    }
    return rv;
}

// Run f in a new process, return its output; message gets a description of crash.
static string inProcess(const function<string()>& f, string& crash)
{
    int pp[2];
    if (pipe(pp)) throw runtime_error("pipe");
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) throw runtime_error("fork");
    if (pid == 0)
    {
        close(pp[0]);
        string s;
        try { s = "K" + f(); }
        catch (const exception& e) { s = string("E") + demangle(typeid(e).name()) + ": " + e.what(); }
        writeall(pp[1], s);
        _exit(0);
    }
    close(pp[1]);
    string s = readall(pp[0]);
    close(pp[0]);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) { }
    if (WIFSIGNALED(st))
        crash = strprintf("crash:%s", *seam::g_assertmsg ? string(seam::g_assertmsg).substr(0, 200).c_str() : strsignal(WTERMSIG(st)));
    else if (s.empty()) crash = "crash:exit";
    else if (s[0] == 'E') crash = "restore-failed:" + s.substr(1);
    return s.size() ? s.substr(1) : s;
}

static void run(const Scenario& sc, Ctx& ctx)
{
    const vector<Op>& ops = sc.ops;
    string crash;
    string cont = inProcess([&]() { World w; return runSegment(w, ops, 0, ops.size(), false); }, crash);
    if (!crash.empty()) ctx.fail(crash, "continuous process");
    vector<Outcome> ref, got;
    for (size_t p = 0; p < cont.size(); ) ref.push_back(Outcome::unpack(cont, p));
    // chain of processes
    string snap;
    size_t a = 0;
    long gens = 0;
    seam::tick_t tick0 = seam::clock_get();
    while (a < ops.size())
    {
        size_t b = a + (a && ops[a].n == "r" ? 1 : 0);
        while (b < ops.size() && ops[b].n != "r") ++b;
        size_t nsnap = snap.size();
        auto body = [&]() {
            if (a > 0 && ops[a].n == "r")
            {
                seam::tick_t t = tick0;
                long off = ops[a].I(1);
                switch (ops[a].I(0))
                {
                    case 1: t.second += off; break;
                    case 2: t.second += 100 * off; break;
                    case 3: t.second = LONG_MAX - off; break;
                    case 4: t.first += 1 + off % 3; break;
                    case 5: t.first += 1; t.second = LONG_MAX - off % 50; break;
                    default: break;
                }
                seam::clock_set(t);
            }
            World w;
            if (nsnap) w.load(snap);
            string rv = runSegment(w, ops, a, b, true);
            string s = b < ops.size() ? w.save() : string();
            uint64_t n = rv.size();
            return string((const char*) &n, 8) + rv + s;
        };
        string s = inProcess(body, crash);
        if (!crash.empty()) ctx.fail(crash, "process %ld restored before operation %zu", gens, a);
        uint64_t n;
        memcpy(&n, s.data(), 8);
        for (size_t p = 8; p < 8 + n; ) got.push_back(Outcome::unpack(s, p));
        snap = s.substr(8 + n);
        if (a && ops[a].n == "r")
        {
            ++gens;
            static const char* sk[] = {"none", "ahead-little", "ahead", "near-carry", "next-epoch", "next-epoch-near-carry"};
            ctx.count("fault.crash-restart");
            ctx.count(string("fault.clock-skew.") + sk[max(0L, min(5L, ops[a].I(0)))]);
        }
        a = b;
    }
    // compare
    Comparer cmp;
    size_t j = 0;
    long since = 0;
    bool nontriv = false;
    map<int,int> kindat;
    for (size_t k = 0; k < ops.size(); ++k)
    {
        if (ops[k].n == "r") { since = 1; continue; }
        if (ops[k].n == "c.new") kindat[ops[k].I(0)] = ops[k].I(1);
        if (ops[k].n == "c.copy" && kindat.count(ops[k].I(0))) kindat[ops[k].I(1)] = kindat[ops[k].I(0)];
        const Outcome& x = got.at(j);
        const Outcome& y = ref.at(j);
        ++j;
        logOutcome(ctx, ops[k], x);
        if (x.what.compare(0, 5, "COPY ") == 0) ctx.fail("copy-differs", "%s: %s", ops[k].str().c_str(), x.what.c_str());
        if (x.what.compare(0, 9, "TRUNCATED") == 0) ctx.fail("truncated-snapshot-accepted", "%s: %s", ops[k].str().c_str(), x.what.c_str());
        if (ops[k].n == "trunc") ctx.count("fault.truncated-snapshot");
        string cls;
        string d = cmp.compare(x, y, x.calc >= 0 ? kindat[x.calc] : -1, cls);
        if (!cls.empty())
            ctx.fail(cls, "op %zu %s: restored vs continuous: %s", k, ops[k].str().c_str(), d.c_str());
        if (since && !x.obs.empty()) nontriv = true;
        ctx.feat(ops[k].n + (x.exc.empty() ? "" : "!") + (since ? "/r" : ""));
        if (!x.obs.empty()) ctx.feat(strprintf("%s/%zu/%ld", x.obs.back().name.c_str(), x.obs.size(), min(gens, 9L)));
        ctx.count("checked", x.obs.size());
    }
    if (gens && nontriv) ctx.count("nontrivial");
}

static Register reg(Property{"C05", gen, run, preloadTables});

}   // namespace sim
