// C07: resolution of the data directory after changes of the environment, of
// the file system and failures of system calls.
#include "world.hpp"
#include <diffpy/version.hpp>
#include <climits>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <fstream>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
namespace sim {
using namespace std;

// load i=layout          0 installed library, 1 link to it in another directory,
//                        2 library in a source tree, 3 link to that in an installed tree
// node i=k,type,target   make node k: 0 nothing, 1 directory, 2 file, 3 link to node target,
//                        4 link to a missing name, 5 relative link, 6 directory in node target
// env i=k,spelling       name node k in the environment; k=-1 unset, -2 empty, -3 too long, -4 root, -5 slashes
// cd i=k                 change the current directory to a node or (-1) to the base
// lib i=which,on         data directory of the library: 0 installed, 1 source tree, 2 installed as a link to node
// io s=what,sub i=at,n,err
// alloc i=at,n
// call i=f               datapath
#define STR1(x) #x
#define STR(x) STR1(x)
static const char* relpath = "share/diffpy/libdiffpy-" STR(DIFFPY_VERSION_MAJOR) "." STR(DIFFPY_VERSION_MINOR);
static const int NN = 6;
static string s_base, s_so;
typedef string (*datapath_t)(const string&);

static void prepare()
{
    const char* e = getenv("VSIM_SCRATCH");
    s_base = strprintf("%s/w%08d", e ? e : "/tmp/vsim-scratch", int(getpid()));
    e = getenv("VSIM_RTSO");
    s_so = e ? e : "";
}

// remove a tree below the scratch directory, links are never followed
static void wipenode(const string& p)
{
    struct stat sb;
    if (p.compare(0, s_base.size(), s_base) || lstat(p.c_str(), &sb)) return;
    if (!S_ISDIR(sb.st_mode)) { unlink(p.c_str()); return; }
    if (DIR* d = opendir(p.c_str()))
    {
        while (dirent* e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) wipenode(p + "/" + e->d_name);
        closedir(d);
    }
    rmdir(p.c_str());
}

static void mkdirs(const string& p)
{
    for (size_t k = 1; k <= p.size(); ++k)
        if (k == p.size() || p[k] == '/') mkdir(p.substr(0, k).c_str(), 0755);
}

static string squeeze(const string& s)
{
    string rv;
    for (char c : s) if (c != '/' || rv.empty() || rv.back() != '/') rv += c;
    return rv;
}

static bool truedir(const string& d)
{
    struct stat sb;
    return syscall(SYS_newfstatat, AT_FDCWD, d.c_str(), &sb, 0) == 0 && S_ISDIR(sb.st_mode);
}
static string truereal(const string& d)
{
    char b[PATH_MAX];
    return realpath(d.c_str(), b) ? b : "";
}

static Scenario gen(uint64_t seed, bool thorough)
{
    Rng r(seed ^ 0xc07);
    Scenario sc;
    sc.prop = "C07";
    sc.seed = seed;
    auto add = [&](const string& n, vector<long> i = {}, vector<string> s = {}) { sc.ops.push_back(Op(n, i, {}, s)); };
    add("load", {r.below(4)});
    for (int k = 0; k < 3; ++k) if (r.chance(0.7)) add("lib", {k, 1, r.below(NN)});
    for (int k = 0; k < NN; ++k) if (r.chance(0.7)) add("node", {k, r.pick(vector<int>{1, 1, 1, 2, 3, 3, 4, 5, 6}), r.below(NN)});
    const int n = thorough ? r.range(10, 120) : r.range(5, 45);
    const double pio = r.pick(vector<double>{0, 0.1, 0.4}), pal = r.pick(vector<double>{0, 0, 0.2});
    vector<double> w = {3, 5, 1, 1.5, 6};       // node, env, cd, lib, call
    for (double& x : w) if (r.chance(0.3)) x *= 0.1;
    w[4] = 6;
    for (int step = 0; step < n; ++step)
    {
        switch (r.weighted(w))
        {
            case 0: add("node", {r.below(NN), r.pick(vector<int>{0, 0, 1, 1, 1, 1, 2, 3, 3, 3, 4, 5, 6}), r.below(NN)}); break;
            case 1: add("env", {r.chance(0.75) ? r.below(NN) : -r.pick(vector<int>{1, 1, 1, 1, 2, 2, 3, 4, 5}), r.below(9)}); break;
            case 2: add("cd", {r.chance(0.5) ? -1 : r.below(NN)}); break;
            case 3: add("lib", {r.below(3), r.below(2), r.below(NN)}); break;
            case 4: break;
        }
        if (r.chance(pio))
            add("io", {r.pick(vector<int>{1, 1, 1, 2, 3}), r.pick(vector<int>{1, 1, 2, 100}),
                r.pick(vector<int>{EACCES, ENOENT, EIO, ELOOP, ENOMEM, ENOTDIR, ENAMETOOLONG})}, {r.chance(0.5) ? "stat" : "realpath", ""});
        if (r.chance(pal)) add("alloc", {r.range(1, 12), r.pick(vector<int>{1, 1, 2, 1000})});
        if (r.chance(0.75)) add("call", {r.below(4)});
    }
    add("call", {1});
    return sc;
}

static void run(const Scenario& sc, Ctx& ctx)
{
    mkdir(s_base.substr(0, s_base.rfind('/')).c_str(), 0755);
    wipenode(s_base);
    mkdir(s_base.c_str(), 0755);
    if (chdir(s_base.c_str())) throw runtime_error("cannot use the scratch directory");
    // two physical libraries
    auto put = [&](const string& dst) {
        if (link(s_so.c_str(), dst.c_str()) == 0) return;
        ifstream in(s_so, ios::binary);
        ofstream(dst, ios::binary) << in.rdbuf();
    };
    mkdirs(s_base + "/inst/lib");
    mkdirs(s_base + "/inst/share/diffpy");
    mkdirs(s_base + "/other/lib");
    mkdirs(s_base + "/other/share/diffpy");
    mkdirs(s_base + "/srct/build/debug");
    mkdirs(s_base + "/srct/src");
    put(s_base + "/inst/lib/librt.so");
    put(s_base + "/srct/build/debug/librt.so");
    seam::g_iowatch = {s_base, "n", "/", "."};
    unsetenv("DIFFPYRUNTIME");
    string sopath, shared;      // library and the directory above its own
    datapath_t datapath = 0;
    string cached;              // resolved directory of the library
    set<string> maybe;          // as it might be after a failed call
    string envval;
    bool hasenv = false;
    int layout = 0;
    seam::AllocPlan arm = {};
    arm.armed = false;
    auto node = [&](long k) { return s_base + "/n" + to_string(labs(k) % NN); };
    auto strip = [&](string s) {
        for (size_t p; (p = s.find(s_base)) != string::npos; ) s.replace(p, s_base.size(), "@");
        return s;
    };
    for (const Op& op : sc.ops)
    {
        if (op.n == "load")
        {
            if (datapath) continue;
            layout = labs(op.I(0)) % 4;
            if (layout == 1 && symlink("../../inst/lib/librt.so", (s_base + "/other/lib/librt.so").c_str())) { }
            if (layout == 3 && symlink((s_base + "/srct/build/debug/librt.so").c_str(), (s_base + "/other/lib/librt.so").c_str())) { }
            sopath = s_base + (layout == 0 ? "/inst/lib/librt.so" : layout == 2 ? "/srct/build/debug/librt.so" : "/other/lib/librt.so");
            shared = s_base + (layout == 0 ? "/inst" : layout == 2 ? "/srct/build" : "/other");
            void* h = dlopen(sopath.c_str(), RTLD_NOW | RTLD_LOCAL);
            if (!h) throw runtime_error(string("cannot load the library ") + dlerror());
            datapath = (datapath_t) dlsym(h, "_ZN6diffpy11runtimepath8datapathERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE");
            if (!datapath) throw runtime_error("no datapath in the library");
            ctx.log("load %d", layout);
        }
        else if (op.n == "node")
        {
            string p = node(op.I(0)), t = node(op.I(2));
            wipenode(p);
            int rc = 0;
            switch (labs(op.I(1)) % 7)
            {
                case 0: break;
                case 1: rc = mkdir(p.c_str(), 0755); break;
                case 2: ofstream(p) << "file"; break;
                case 3: rc = symlink(t.c_str(), p.c_str()); break;
                case 4: rc = symlink((s_base + "/missing").c_str(), p.c_str()); break;
                case 5: rc = symlink(t.substr(t.rfind('/') + 1).c_str(), p.c_str()); break;
                case 6:
                    rc = mkdir(p.c_str(), 0755);
                    if (op.I(2) != op.I(0)) rc = mkdir((p + "/n" + to_string(labs(op.I(2)) % NN)).c_str(), 0755);
                    break;
            }
            ctx.log("node %ld %ld %ld %d", op.I(0), op.I(1), op.I(2), rc);
        }
        else if (op.n == "env")
        {
            long k = op.I(0);
            if (k == -1) { unsetenv("DIFFPYRUNTIME"); hasenv = false; envval = ""; }
            else
            {
                if (k == -2) envval = "";
                else if (k == -3) envval = s_base + string(5000, '/') + string(300, 'x');
                else if (k == -4) envval = "/";
                else if (k <= -5) envval = "////";
                else
                {
                    string p = node(k), nm = p.substr(p.rfind('/') + 1);
                    switch (labs(op.I(1)) % 9)
                    {
                        case 0: envval = p; break;
                        case 1: envval = p + "/"; break;
                        case 2: envval = p + "///"; break;
                        case 3: envval = p + "/."; break;
                        case 4: envval = s_base + "/./" + nm; break;
                        case 5: envval = p + "/../" + nm; break;
                        case 6: envval = nm; break;
                        case 7: envval = "./" + nm + "/"; break;
                        case 8: envval = s_base + "//" + nm + "/n" + to_string(labs(k + 1) % NN); break;
                    }
                }
                setenv("DIFFPYRUNTIME", envval.c_str(), 1);
                hasenv = !envval.empty();
            }
            ctx.log("env %s", envval.size() < 4000 ? strip(envval).c_str() : "long");
        }
        else if (op.n == "cd")
        {
            int rc = chdir((op.I(0) < 0 ? s_base : node(op.I(0))).c_str());
            ctx.log("cd %ld %d", op.I(0), rc);
        }
        else if (op.n == "lib")
        {
            if (!datapath && sc.ops[0].n != "load") continue;
            string d1 = shared + "/" + relpath, d2 = s_base + "/srct/src/runtime";
            mkdirs(shared + "/share/diffpy");
            if (op.I(0) == 1) { if (op.I(1)) mkdir(d2.c_str(), 0755); else rmdir(d2.c_str()); }
            else
            {
                unlink(d1.c_str());
                rmdir(d1.c_str());
                if (op.I(1) && op.I(0) == 0) mkdir(d1.c_str(), 0755);
                if (op.I(1) && op.I(0) == 2 && symlink(node(op.I(2)).c_str(), d1.c_str())) { }
            }
            ctx.log("lib %ld %ld", op.I(0), op.I(1));
        }
        else if (op.n == "io")
        {
            seam::g_iorules.push_back(seam::IoRule{op.S(0) == "stat" ? "stat" : "realpath", op.S(1), max(1L, op.I(0)),
                    max(1L, op.I(1)), int(op.I(2)), "error", 0, 0});
        }
        else if (op.n == "alloc") { arm.armed = true; arm.failat = max(1L, op.I(0)); arm.nfail = max(1L, op.I(1)); }
        else if (op.n == "call")
        {
            if (!datapath) continue;
            static const char* fn[] = {"", "f0_WaasKirf.dat", "sub/x.dat", "a"};
            const string f = fn[labs(op.I(0)) % 4];
            // what it shall be
            string expect, now;
            if (hasenv)
            {
                string d = envval;
                while (d.size() > 1 && d.back() == '/') d.pop_back();
                if (truedir(d)) expect = truereal(d);
            }
            else
            {
                string d1 = sopath.substr(0, sopath.rfind('/')) + "/../" + relpath;
                string ph = truereal(sopath), d2 = ph.substr(0, ph.rfind('/')) + "/../../src/runtime";
                if (truedir(d1)) expect = truereal(d1);
                else if (truedir(d2)) expect = truereal(d2);
                now = truedir(d2) ? truereal(d2) : "";
            }
            string got, exc;
            map<string,long> io0 = seam::g_iocount;
            seam::g_ioarmed = true;
            if (arm.armed) seam::alloc_arm(arm.failat, arm.nfail);
            try { got = datapath(f); }
            catch (const bad_alloc&) { seam::alloc_disarm(); exc = "bad_alloc"; }
            catch (const runtime_error&) { seam::alloc_disarm(); exc = "runtime_error"; }
            catch (const exception& e) { seam::alloc_disarm(); exc = demangle(typeid(e).name()); }
            seam::alloc_disarm();
            seam::g_ioarmed = false;
            bool fault = io0 != seam::g_iocount;
            if (arm.armed && seam::g_alloc.fired) { fault = true; ctx.count("fault.alloc"); }
            arm.armed = false;
            // rules hold for one call, the rest of them for the next
            ctx.log("call %s -> %s %s fault %d", f.c_str(), strip(got).c_str(), exc.c_str(), int(fault));
            ctx.feat(strprintf("%d %d %d %d %s", layout, int(hasenv), int(expect.empty()), int(fault), exc.c_str()) +
                    (hasenv && envval.size() < 4000 ? strip(envval) : string()));
            ctx.count("calls");
            auto full = [&](const string& d) { return squeeze(d + (f.empty() ? "" : "/" + f)); };
            const char* k = hasenv ? "override" : "library";
            if (exc.empty())
            {
                const string g = squeeze(got);
                bool ok = !expect.empty() && g == full(expect);
                if (!hasenv)
                {
                    // the location of the library is fixed, the first resolved directory may be kept
                    if (!cached.empty() && g == full(cached)) ok = true;
                    for (const string& m : maybe) if (!ok && g == full(m)) { ok = true; expect = m; }
                    // the installed directory could not be accessed
                    if (fault && cached.empty() && !now.empty() && g == full(now)) { ok = true; expect = now; }
                    if (ok && cached.empty()) cached = expect;
                    if (ok) maybe.clear();
                }
                if (!ok)
                    ctx.fail(string("wrong-path:") + k, "datapath(%s) is %s instead of %s with the override '%s'", f.c_str(),
                            strip(got).c_str(), expect.empty() ? "an error" : strip(full(expect)).c_str(),
                            envval.size() < 4000 ? strip(envval).c_str() : "too long");
                ctx.count(hasenv ? "resolved.override" : "resolved.library");
            }
            else
            {
                if (!fault && exc != "runtime_error")
                    ctx.fail(string("exception:") + k, "datapath raised %s", exc.c_str());
                if (!fault && !expect.empty())
                    ctx.fail(string("raises:") + k, "datapath(%s) raises %s instead of %s with the override '%s'", f.c_str(),
                            exc.c_str(), strip(full(expect)).c_str(), envval.size() < 4000 ? strip(envval).c_str() : "too long");
                if (fault && !hasenv && cached.empty())
                    for (auto& m : {expect, now}) if (!m.empty()) maybe.insert(m);
                ctx.count(fault ? "raised.fault" : "raised.bad");
            }
            if (ctx.cnt["resolved.override"] && ctx.cnt["calls"] > 2) ctx.cnt["nontrivial"] = 1;
        }
    }
    for (auto& kv : seam::g_iocount) ctx.count("fault.io." + kv.first, kv.second);
    if (chdir("/")) { }
    wipenode(s_base);
}

static Register reg(Property{"C07", gen, run, prepare});

}   // namespace sim
