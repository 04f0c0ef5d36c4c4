// C15: every history gives back what it took.
// C16: results depend on nothing but the history.
// Histories of other properties are repeated in one process; for C16 with other
// contents and layout of fresh memory in each repetition.
#include "world.hpp"
#include <algorithm>
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
#include <cerrno>
#include <climits>
#include <fstream>
#include <sstream>
#include <diffpy/runtimepath.hpp>
namespace sim {
using namespace std;

static const vector<string> BASES = {"C01", "C02", "C03", "C04", "C09", "C10", "C11", "C12", "C13", "C14", "tables", "C17", "C20"};
static const int TABLES = 10;

static long openfiles()
{
    long rv = 0;
    if (DIR* d = opendir("/proc/self/fd"))
    {
        while (readdir(d)) ++rv;
        closedir(d);
    }
    return rv;
}

// --- loads of data tables that fail --------------------------------------------------

static const char* const TFILES[] = {"f0_WaasKirf.dat", "ionlist.dat", "nsftable.dat", "bvparm2011sel.cif"};
static string s_tdir;

static Scenario gentables(uint64_t seed, bool thorough)
{
    Rng r(seed ^ 0x7ab);
    Scenario sc;
    sc.seed = seed;
    const int n = thorough ? r.range(2, 20) : r.range(2, 8);
    const double pio = r.pick(vector<double>{0, 0.3, 0.8}), pa = r.pick(vector<double>{0, 0.2, 0.6});
    for (int k = 0; k < n; ++k)
    {
        // kind, state of file, place of damage, I/O fault, its place, failing allocation
        long st = r.chance(0.15) ? 0 : r.range(1, 7);
        long io = r.chance(pio) ? r.range(1, 4) : 0;
        long al = r.chance(pa) ? long(exp(r.uni(0, log(9000.)))) : 0;
        sc.ops.push_back(Op("t", {r.below(6), st, long(r.u64() >> 40), io, r.range(1, 6), al}));
    }
    return sc;
}

// All is undone at the end, tables that got loaded stay.
static void runtables(const Scenario& sc, Ctx& ctx)
{
    const char* e = getenv("VSIM_RUNTIME");
    const string rt = e ? e : "/repo/src/runtime";
    const char* old = getenv("DIFFPYRUNTIME");
    const string env0 = old ? old : rt;
    mkdir(s_tdir.substr(0, s_tdir.rfind('/')).c_str(), 0755);
    mkdir(s_tdir.c_str(), 0755);
    auto wipe = [&]() {
        for (auto f : TFILES) { string p = s_tdir + "/" + f; unlink(p.c_str()); rmdir(p.c_str()); }
    };
    for (const Op& op : sc.ops)
    {
        if (op.n != "t") continue;
        const int kind = labs(op.I(0)) % 6;
        const int f = kind == 0 || kind == 5 ? 0 : kind == 1 ? 1 : kind == 2 ? 2 : kind == 3 ? 3 : 0;
        const int st = labs(op.I(1)) % 8;
        wipe();
        const string path = s_tdir + "/" + TFILES[f];
        string text;
        if (st >= 3 && st <= 6)
        {
            ifstream in((rt + "/" + TFILES[f]).c_str());
            stringstream ss;
            ss << in.rdbuf();
            text = ss.str();
        }
        const size_t at = text.empty() ? 0 : size_t(op.I(2)) % text.size();
        const size_t bol = at ? text.rfind('\n', at - 1) + 1 : 0;
        switch (st)
        {
            case 0: if (symlink((rt + "/" + TFILES[f]).c_str(), path.c_str())) { } break;
            case 1: break;
            case 2: mkdir(path.c_str(), 0755); break;
            case 3: text.resize(at); break;
            case 4: text.resize(bol); break;
            case 5: text.insert(bol, "Garbage, 1, 2 3\n"); break;
            case 6: text.insert(bol, text.substr(bol, text.find('\n', bol) + 1 - bol)); break;
            default: break;
        }
        if (st >= 3 && st <= 6) ofstream(path.c_str()) << text;
        setenv("DIFFPYRUNTIME", (st == 7 ? s_tdir + "/none" : s_tdir).c_str(), 1);
        seam::g_iowatch = {s_tdir};
        seam::g_ioarmed = true;
        if (op.I(3))
        {
            static const char* const mode[] = {"error", "error", "eof", "short"};
            const int m = labs(op.I(3) - 1) % 4;
            seam::g_iorules.push_back(seam::IoRule{m ? "read" : "open", "", op.I(4, 1), m == 3 ? 5L : 1L, m ? EIO : EMFILE, mode[m], 0, 0});
        }
        string exc;
        try
        {
            ScatteringFactorTablePtr t;
            static const char* const tp[] = {"xray", "electronnumber", "neutron", "", "electron", "xray"};
            if (kind != 3) t = ScatteringFactorTable::createByType(tp[kind]);
            BVParametersTable bv;
            if (op.I(5)) seam::alloc_arm(op.I(5), 1000000);
            if (kind == 3) bv.lookup("Na", 1, "Cl", -1);
            else if (kind == 5) t->setCustomAs("X9", "C", 2.5, 1.0);
            else t->lookup("C", 1.0);
            seam::alloc_disarm();
        }
        catch (const exception& x) { seam::alloc_disarm(); exc = demangle(typeid(x).name()); }
        seam::io_clear();
        seam::g_ioarmed = false;
        ctx.log("%s -> %s", op.str().c_str(), exc.c_str());
        ctx.feat(strprintf("%d %d %ld %d %s", kind, st, op.I(3), op.I(5) > 0, exc.c_str()));
        if (!exc.empty()) { ctx.count("nontrivial"); ctx.count(exc == "std::bad_alloc" ? "fault.alloc" : "fault.failed-load"); }
    }
    wipe();
    rmdir(s_tdir.c_str());
    seam::g_iowatch.clear();
    setenv("DIFFPYRUNTIME", env0.c_str(), 1);
}

static void prepare15()
{
    const char* e = getenv("VSIM_SCRATCH");
    s_tdir = strprintf("%s/t%08d", e ? e : "/tmp/vsim-scratch", int(getpid()));
}

static Scenario genbase(const string& prop, uint64_t seed, bool thorough, const vector<double>& w)
{
    Rng r(seed ^ hashstr(prop));
    int b = r.weighted(w);
    Scenario sc = b == TABLES ? gentables(seed, thorough) : properties().at(BASES[b]).gen(seed, thorough);
    // registered types stay registered, such a history cannot be repeated
    if (BASES[b] == "C13" && sc.C("mode") == 0)
    {
        b = 0;
        sc = properties().at(BASES[b]).gen(seed, thorough);
    }
    // ObjCryst itself does not release atoms removed from a molecule
    if (BASES[b] == "C17" && prop == "C15")
        sc.ops.erase(remove_if(sc.ops.begin(), sc.ops.end(), [](const Op& op) { return op.n == "del"; }), sc.ops.end());
    sc.prop = prop;
    sc.cfg["base"] = b;
    return sc;
}

struct Rep { uint64_t hash; long nlog; char end[96]; seam::Heap heap; long files; };

static Rep once(const Scenario& sc, Ctx* ctx)
{
    Rep rv;
    const int base = sc.C("base") % BASES.size();
    {
        Ctx local;
        Ctx& c = ctx ? *ctx : local;
        string end;
        // failures in these histories are reported by their own checks
        try
        {
            if (base == TABLES) runtables(sc, c);
            else properties().at(BASES[base]).run(sc, c);
        }
        catch (const Viol& v) { end = v.cls; }
        catch (const exception& e) { end = demangle(typeid(e).name()); }
        catch (const seam::SimAlienFault&) { end = "seam::SimAlienFault"; }
        seam::alloc_disarm();
        seam::cb_disarm();
        rv.hash = c.h;
        rv.nlog = c.nlog;
        snprintf(rv.end, sizeof rv.end, "%s", end.c_str());
    }
    rv.heap = seam::g_heap;
    rv.files = openfiles();
    return rv;
}

// --- C15 ----------------------------------------------------------------------------

static Scenario gen15(uint64_t seed, bool thorough)
{ return genbase("C15", seed, thorough, {1, 3, 2, 2, 1, 1, 2, 2, 1, 2, 4, 1.5, 0.7}); }

static void run15(const Scenario& sc, Ctx& ctx)
{
    // boost::archive gives up the objects of a load that failed
    g_loadfaults = false;
    const string base = BASES[sc.C("base") % BASES.size()];
    // failing loads of data tables need a process that has none
    if (base != BASES[TABLES]) preloadTables();
    // the first time may fill tables that stay for the life of the process
    once(sc, &ctx);
    const Rep a = once(sc, 0);
    if (getenv("VSIM_HEAPTRACE")) heap_trace(true);
    const Rep b = once(sc, 0);
    if (getenv("VSIM_HEAPTRACE")) heap_trace(false);
    ctx.log("blocks %ld bytes %ld files %ld", b.heap.blocks - a.heap.blocks, b.heap.bytes - a.heap.bytes, b.files - a.files);
    ctx.count("base." + base);
    ctx.count("repetitions", 3);
    if (a.heap.blocks != b.heap.blocks || a.heap.bytes != b.heap.bytes)
        ctx.fail("memory", "the same history of %s left %ld blocks and %ld bytes more when it was repeated, all objects are destroyed",
                base.c_str(), b.heap.blocks - a.heap.blocks, b.heap.bytes - a.heap.bytes);
    if (a.files != b.files)
        ctx.fail("files", "the same history of %s left %ld more open files", base.c_str(), b.files - a.files);
}

static Register reg15(Property{"C15", gen15, run15, prepare15});

// --- C16 ----------------------------------------------------------------------------

static Scenario gen16(uint64_t seed, bool thorough)
{ return genbase("C16", seed, thorough, {2, 1, 2, 1, 1, 2, 2, 1, 1, 2, 0, 1.5, 1}); }

static void run16(const Scenario& sc, Ctx& ctx)
{
    const string base = BASES[sc.C("base") % BASES.size()];
    static const int fill[3] = {0x00, 0xFF, 0x41};
    Rep r[3];
    for (int k = 0; k < 3; ++k)
    {
        seam::g_fillbyte = fill[(k + sc.seed) % 3];
        seam::g_padseed = k ? mix64(sc.seed + k) | 1 : 0;
        seam::vtime_start(sc.seed + 0x7777 * (k + 1));
        Rng q(sc.seed + k);
        // other number format, event clock at another place or next to its carry
        if (k) seam::set_locale(q.chance(0.5) ? q.below(seam::NLOCALE) : 0);
        if (k && q.chance(0.3) && seam::clock_accessible())
        {
            seam::tick_t t = seam::clock_get();
            if (q.chance(0.5)) t.second = LONG_MAX - q.below(3000);
            else ++t.first;
            seam::clock_set(t);
            ctx.count("fault.clock-jump");
        }
        r[k] = once(sc, k ? 0 : &ctx);
    }
    seam::set_locale(0);
    seam::g_padseed = 0;
    ctx.count("base." + base);
    ctx.count("repetitions", 3);
    // the first time may take more allocations for tables that stay, which
    // moves the places of failed allocations
    bool warm = !(base == "C01" || base == "C09" || base == "C10" || base == "C14");
    for (const Op& op : sc.ops) warm |= op.n == "f";
    if (!warm) ctx.count("repetitions.first");
    for (int k = warm ? 2 : 1; k < 3; ++k)
        if (r[k].hash != r[k - 1].hash || strcmp(r[k].end, r[k - 1].end))
            ctx.fail("differs", "repetition %d of the same history of %s has other results (%ld and %ld records, ended by '%s' and '%s')",
                    k, base.c_str(), r[k - 1].nlog, r[k].nlog, r[k - 1].end, r[k].end);
}

static Register reg16(Property{"C16", gen16, run16, preloadTables});

}   // namespace sim
