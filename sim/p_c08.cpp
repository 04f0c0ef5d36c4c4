// C08: event clocks in several simulated processes, which exchange archives,
// crash and restart with skewed counters, against happened-before order.
#include "core.hpp"
#include "seams.hpp"
#include <cerrno>
#include <climits>
#include <csignal>
#include <cstdlib>
#include <sstream>
#include <boost/serialization/vector.hpp>
#include <boost/shared_ptr.hpp>
#include <boost/serialization/shared_ptr.hpp>
#include <diffpy/serialization.ipp>
#include <diffpy/EventTicker.hpp>
#include <sys/wait.h>
#include <unistd.h>
namespace sim {
using namespace std;
using diffpy::eventticker::EventTicker;

// start i=proc,skew,offset          process starts, counter set as by skew
// kill  i=proc                      process dies, its clocks are lost
// new   i=proc,slot                 fresh clock
// click i=proc,slot,n               n events, all recorded by the same clock
// upd   i=proc,slot,slot            update from other clock
// copy  i=proc,slot,slot
// save  i=proc,arch,slotmask        several clocks in one archive
// load  i=proc,arch,slot,alloc      restore to slots from this one on; alloc: failing allocation
// trunc i=proc,arch d=fraction      restore from an incomplete archive

static const int NP = 3, NT = 6, NA = 6;

static Scenario gen(uint64_t seed, bool thorough)
{
    Rng r(seed ^ 0xc08);
    Scenario sc;
    sc.prop = "C08";
    sc.seed = seed;
    const int np = r.range(1, NP);
    auto start = [&](int p) {
        static const vector<double> offs = {1, 10, 1e3, 1e6, 1e15};
        long off = long(r.uni() * r.pick(offs));
        sc.ops.push_back(Op("start", {p, r.below(7), off}));
    };
    for (int p = 0; p < np; ++p) start(p);
    int n = thorough ? r.range(10, 150) : r.range(6, 60);
    const double pk = r.pick(vector<double>{0.0, 0.03, 0.1});
    const double pl = r.pick(vector<double>{0.05, 0.15, 0.4});
    const int nt = r.range(2, NT), na = r.range(1, NA);
    while (n--)
    {
        int p = r.below(np);
        double u = r.uni();
        if (r.chance(pk)) { if (r.chance(0.6)) sc.ops.push_back(Op("kill", {p})); start(p); }
        else if (u < 0.3) sc.ops.push_back(Op("click", {p, r.below(nt), r.chance(0.8) ? 1 : r.range(1, 40)}));
        else if (u < 0.42) sc.ops.push_back(Op("upd", {p, r.below(nt), r.below(nt)}));
        else if (u < 0.46) sc.ops.push_back(Op("copy", {p, r.below(nt), r.below(nt)}));
        else if (u < 0.49) sc.ops.push_back(Op("new", {p, r.below(nt)}));
        else if (r.chance(pl)) sc.ops.push_back(Op("load", {p, r.below(na), r.below(nt),
                    r.chance(0.1) ? r.range(1, 12) : 0}));
        else if (r.chance(0.1)) sc.ops.push_back(Op("trunc", {p, r.below(na)}, {r.uni()}));
        else if (r.chance(0.5)) sc.ops.push_back(Op("save", {p, r.below(na), r.range(1, (1 << nt) - 1)}));
        else sc.ops.push_back(Op("click", {p, r.below(nt), 1}));
    }
    return sc;
}

// --- simulated process -------------------------------------------------------

static bool xwrite(int fd, const void* b, size_t n)
{
    const char* p = static_cast<const char*>(b);
    while (n)
    {
        ssize_t k = write(fd, p, n);
        if (k < 0 && errno == EINTR) continue;
        if (k <= 0) return false;
        p += k; n -= k;
    }
    return true;
}
static bool xread(int fd, void* b, size_t n)
{
    char* p = static_cast<char*>(b);
    while (n)
    {
        ssize_t k = read(fd, p, n);
        if (k < 0 && errno == EINTR) continue;
        if (k <= 0) return false;
        p += k; n -= k;
    }
    return true;
}
static bool send(int fd, const string& s)
{
    uint64_t n = s.size();
    return xwrite(fd, &n, 8) && xwrite(fd, s.data(), n);
}
static bool recv(int fd, string& s)
{
    uint64_t n;
    if (!xread(fd, &n, 8)) return false;
    s.resize(n);
    return xread(fd, &s[0], n);
}

// comparison matrix, 6 operators of every ordered pair
static string matrix(const vector<EventTicker>& t)
{
    string rv;
    for (auto& a : t) for (auto& b : t)
        rv += char('0' + (a < b) + 2 * (a > b) + 4 * (a == b) + 8 * (a <= b) + 16 * (a >= b) + 32 * (a != b));
    return rv;
}

static void process(int in, int out, const Op& op0)
{
    seam::tick_t t0 = seam::clock_get(), t = t0;
    long off = max(0L, op0.I(2));
    switch (op0.I(1))
    {
        case 1: t.second += off; break;
        case 2: t.second = LONG_MAX - off; break;
        case 3: t.second = LONG_MAX - off % 30; break;
        case 4: t.first += 1 + off % 3; break;
        case 5: t.first += 1; t.second = LONG_MAX - off % 30; break;
        case 6: t.first += 1; t.second = off % 30; break;
        default: break;
    }
    seam::clock_set(t);
    vector<EventTicker> tk(NT);
    string cmd;
    while (recv(in, cmd))
    {
        string res, data;
        size_t e = cmd.find('\n');
        Op op;
        Op::parse(cmd.substr(0, e), op);
        string arch = cmd.substr(e + 1);
        const int a = op.I(1) % NT, b = op.I(2) % NT;
        try
        {
            if (op.n == "click") for (long k = 0; k < op.I(2); ++k) tk[a].click();
            else if (op.n == "upd") tk[a].updateFrom(tk[b]);
            else if (op.n == "copy") tk[a] = tk[b];
            else if (op.n == "new") tk[a] = EventTicker();
            else if (op.n == "save")
            {
                vector<EventTicker> v;
                for (int k = 0; k < NT; ++k) if (op.I(2) >> k & 1) v.push_back(tk[k]);
                data = diffpy::serialization_tostring(v);
            }
            else if (op.n == "load")
            {
                vector<EventTicker> v;
                if (op.I(3)) seam::alloc_arm(op.I(3), 1);
                diffpy::serialization_fromstring(v, arch);
                seam::alloc_disarm();
                for (size_t k = 0; k < v.size() && b + k < size_t(NT); ++k) tk[b + k] = v[k];
            }
            else if (op.n == "trunc")
            {
                vector<EventTicker> v;
                diffpy::serialization_fromstring(v, arch);
            }
        }
        catch (const exception& ex)
        {
            seam::alloc_disarm();
            res = "!" + demangle(typeid(ex).name());
        }
        // comparisons do not change anything
        string m = matrix(tk);
        if (m != matrix(tk)) m = "";
        if (!send(out, m) || !send(out, res) || !send(out, data)) break;
    }
    _exit(0);
}

// --- reference ------------------------------------------------------------------

namespace {
struct Proc
{
    pid_t pid = 0;
    int in = -1, out = -1;
    vector<int> ev;                     // event recorded by each clock, 0 none
    set<int> seen;                      // events known in this process
    map<pair<int,int>,int> order;       // observed order of concurrent events
};
struct Arch { string data; vector<int> ev; };
}

static void stop(Proc& p)
{
    if (!p.pid) return;
    close(p.in);
    close(p.out);
    kill(p.pid, SIGKILL);
    while (waitpid(p.pid, 0, 0) < 0 && errno == EINTR) { }
    p = Proc();
}

static void run(const Scenario& sc, Ctx& ctx)
{
    signal(SIGPIPE, SIG_IGN);
    vector<Proc> ps(NP);
    vector<Arch> as(NA);
    vector<set<int>> past(1);           // events older than each event
    long nclicks = 0, nloads = 0;
    for (size_t k = 0; k < sc.ops.size(); ++k)
    {
        const Op& op = sc.ops[k];
        const int pi = int(op.I(0)) % NP;
        Proc& p = ps[pi];
        if (op.n == "start" || op.n == "kill")
        {
            if (p.pid) ctx.count("fault.process-crash");
            stop(p);
            if (op.n == "kill") continue;
            int c1[2], c2[2];
            if (pipe(c1) || pipe(c2)) throw runtime_error("pipe");
            fflush(stdout);
            pid_t pid = fork();
            if (pid < 0) throw runtime_error("fork");
            if (pid == 0)
            {
                close(c1[1]); close(c2[0]);
                for (Proc& q : ps) if (q.pid) { close(q.in); close(q.out); }
                process(c1[0], c2[1], op);
            }
            close(c1[0]); close(c2[1]);
            p.pid = pid; p.in = c1[1]; p.out = c2[0];
            p.ev.assign(NT, 0);
            static const char* sk[] = {"none", "ahead", "far-ahead", "near-carry", "next-epoch", "next-epoch-near-carry", "after-carry"};
            ctx.count(string("fault.clock-skew.") + sk[max(0L, min(6L, op.I(1)))]);
            continue;
        }
        if (!p.pid) continue;
        const int a = int(op.I(1)) % NT, b = int(op.I(2)) % NT;
        string cmd = op.str() + "\n";
        Arch* ar = (op.n == "save" || op.n == "load" || op.n == "trunc") ? &as[op.I(1) % NA] : 0;
        if (op.n == "load" || op.n == "trunc")
        {
            if (ar->data.empty()) continue;
            size_t n = ar->data.size();
            if (op.n == "trunc") n = min(n - 1, size_t(op.D(0) * n));
            cmd += ar->data.substr(0, n);
        }
        string m, res, data;
        if (!send(p.in, cmd) || !recv(p.out, m) || !recv(p.out, res) || !recv(p.out, data))
            ctx.fail("crash", "process %d at operation %zu %s: %s", pi, k, op.str().c_str(), seam::g_assertmsg);
        ctx.log("%s %s %s %zx", op.str().c_str(), m.c_str(), res.c_str(), hashstr(data));
        // reference
        const vector<int> ev0 = p.ev;
        int updobs = -1;
        if (op.n == "trunc")
        {
            ctx.count("fault.truncated-archive");
            if (res.empty()) ctx.fail("truncated-archive-accepted", "operation %zu %s", k, op.str().c_str());
        }
        else if (!res.empty())
        {
            if (op.n != "load" || !op.I(3)) ctx.fail("unexpected-exception:" + res, "operation %zu %s", k, op.str().c_str());
            ctx.count("fault.alloc");
        }
        else if (op.n == "click")
        {
            for (long j = 0; j < op.I(2); ++j)
            {
                int e = int(past.size());
                past.push_back(p.seen);
                p.seen.insert(e);
                p.ev[a] = e;
                ++nclicks;
                if (op.I(2) > 50 && j > 50) break;
            }
        }
        else if (op.n == "copy") p.ev[a] = p.ev[b];
        else if (op.n == "new") p.ev[a] = 0;
        else if (op.n == "upd")
        {
            // decided by causal order, or by observed order if concurrent
            int x = p.ev[a], y = p.ev[b];
            if (x != y)
            {
                if (!y || (x && past[x].count(y))) updobs = x;
                else if (!x || past[y].count(x)) updobs = y;
                else
                {
                    int o = p.order.count({x, y}) ? p.order[{x, y}] : 0;
                    updobs = o < 0 ? y : x;
                }
                p.ev[a] = updobs;
            }
        }
        else if (op.n == "save")
        {
            ar->data = data;
            ar->ev.clear();
            for (int j = 0; j < NT; ++j) if (op.I(2) >> j & 1) ar->ev.push_back(p.ev[j]);
        }
        else if (op.n == "load")
        {
            // all clocks of the archive were restored, even those that were not kept
            for (int e : ar->ev) if (e)
            {
                p.seen.insert(e);
                for (int q : past[e]) p.seen.insert(q);
            }
            for (size_t j = 0; j < ar->ev.size() && b + j < size_t(NT); ++j) p.ev[b + j] = ar->ev[j];
            ++nloads;
            ctx.count("loads");
        }
        // checks
        if (m.size() != size_t(NT * NT)) ctx.fail("comparison-not-stable", "operation %zu %s", k, op.str().c_str());
        int rel[NT][NT];
        for (int i = 0; i < NT; ++i) for (int j = 0; j < NT; ++j)
        {
            int c = m[i * NT + j] - '0';
            bool lt = c & 1, gt = c & 2, eq = c & 4, le = c & 8, ge = c & 16, ne = c & 32;
            bool ok = (lt + gt + eq == 1) && le == (lt || eq) && ge == (gt || eq) && ne == !eq;
            if (!ok) ctx.fail("inconsistent-comparison", "operation %zu %s: clocks %d %d of process %d: bits %d", k, op.str().c_str(), i, j, pi, c);
            rel[i][j] = lt ? -1 : gt ? 1 : 0;
            int x = p.ev[i], y = p.ev[j];
            int e = 2;
            if (x == y) e = 0;
            else if (!x || (y && past[y].count(x))) e = -1;
            else if (!y || past[x].count(y)) e = 1;
            if (e != 2 && e != rel[i][j])
                ctx.fail("wrong-order", "operation %zu %s: clocks %d (event %d) and %d (event %d) of process %d "
                        "compare %d, expected %d", k, op.str().c_str(), i, x, j, y, pi, rel[i][j], e);
            if (e == 2)
            {
                // concurrent events, the order must not change
                auto it = p.order.find({x, y});
                if (it != p.order.end() && it->second != rel[i][j])
                    ctx.fail("order-changed", "operation %zu %s: clocks %d and %d of process %d compare %d, before %d",
                            k, op.str().c_str(), i, j, pi, rel[i][j], it->second);
                p.order[{x, y}] = rel[i][j];
                ctx.count("concurrent");
            }
            else ctx.count("checked");
        }
        for (int i = 0; i < NT; ++i) for (int j = 0; j < NT; ++j) for (int l = 0; l < NT; ++l)
            if (rel[i][j] <= 0 && rel[j][l] <= 0 && rel[i][l] > 0)
                ctx.fail("order-not-transitive", "operation %zu %s: clocks %d %d %d", k, op.str().c_str(), i, j, l);
        if (op.n == "click" && nloads) ctx.count("nontrivial");
        ctx.feat(strprintf("%s/%s/%zu", op.n.c_str(), m.c_str(), min<size_t>(p.seen.size(), 5)));
    }
    for (Proc& p : ps) stop(p);
}

static Register reg(Property{"C08", gen, run, 0});

}   // namespace sim
