// C06: look-ups of tabulated data while their files and the memory fail.
#include "world.hpp"
#include <diffpy/srreal/scatteringfactordata.hpp>
#include <diffpy/srreal/SFTNeutron.hpp>
#include <diffpy/srreal/SFTElectron.hpp>
#include <diffpy/srreal/SFTElectronNumber.hpp>
#include <array>
#include <cmath>
#include <cfloat>
#include <fstream>
#include <sstream>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <dirent.h>
namespace sim {
using namespace std;

// env i=k              data directory: 0,1 scratch directories, 2 missing, 3 unset,
//                      4 directory 0 with slashes, 5 a regular file
// file i=dir,file,state,seed   change a file in directory dir
// io s=what,mode,file i=at,n,err
// locale i=k          number format of the process
// heal                 all faults are gone
// alloc i=at,n         memory fails in the next look-up
// look i=kind,symbol,q,obj
// custom i=table,source,q   rescaled custom entry
// sweep                heal and check everything
enum { FXQ, FXS, FEQ, ENUM, BCN, BVL, BVALL, SFT, PDF, BVS, NLOOK };
enum { FOK, FMISSING, FDIR, FEMPTY, FTRUNC, FDROP, FDUP, FBADNUM, FLOSTCOL, FGARBAGE, FDANGLING, FTRUNCLINE, NFSTATE };
static const char* fsname[] = {"ok", "missing", "directory", "empty", "truncated", "lost-line", "doubled-line",
    "bad-number", "lost-column", "garbage-line", "dangling-link", "truncated-at-line"};
static const char* files[4] = {"f0_WaasKirf.dat", "ionlist.dat", "nsftable.dat", "bvparm2011sel.cif"};

// --- independent reading of the data ------------------------------------------------

static string s_runtime, s_scratch;
static string s_text[4];
static vector<string> s_lines[4];
static vector<int> s_data[4];           // indices of the lines with data
struct WK { double a[5], b[5], c; };
static map<string,WK> s_wk;
static map<string,int> s_en;
static map<string,double> s_bc;
struct BVK { string a0; int v0; string a1; int v1; double Ro, B; string ref; };
static vector<BVK> s_bv;
static vector<string> s_xsym, s_esym, s_nsym;      // symbols to look up, with variants
static vector<array<string,2>> s_bvsym;
static const vector<double> s_q = {0.0, 0.5, 1.7, 4.0, 12.5, 30.0};

static vector<string> split(const string& s, char sep = 0)
{
    vector<string> rv;
    if (!sep) { istringstream is(s); string w; while (is >> w) rv.push_back(w); return rv; }
    size_t p = 0;
    while (true)
    {
        size_t e = s.find(sep, p);
        rv.push_back(s.substr(p, e == string::npos ? e : e - p));
        if (e == string::npos) return rv;
        p = e + 1;
    }
}

static map<string,double> parsensf(const vector<string>& lines, vector<int>* data)
{
    map<string,double> rv;
    for (size_t k = 0; k < lines.size(); ++k)
    {
        const string& l = lines[k];
        if (split(l).empty() || l[0] == '#') continue;
        vector<string> w = split(l, ',');
        if (w.size() < 4 || w[3].empty()) continue;
        if (data) data->push_back(k);
        vector<string> zsa = split(w[0], '-');
        if (zsa.size() < 2) continue;
        double bc = strtod(w[3].c_str(), 0);
        string el = zsa[1];
        rv[zsa.size() > 2 ? zsa[2] + "-" + el : el] = bc;
        // the only isotope or the first of unstable ones stands for the element
        if (zsa.size() > 2 && (w[1] == "100" || (!rv.count(el) && w[1].back() == 'Y'))) rv[el] = bc;
    }
    return rv;
}

static void parse()
{
    for (int f = 0; f < 4; ++f)
    {
        ifstream in(s_runtime + "/" + files[f]);
        stringstream ss;
        ss << in.rdbuf();
        s_text[f] = ss.str();
        s_lines[f] = split(s_text[f], '\n');
        if (!s_lines[f].empty() && s_lines[f].back().empty()) s_lines[f].pop_back();
        s_data[f].clear();
    }
    string sym;
    bool isdata = false;
    for (size_t k = 0; k < s_lines[0].size(); ++k)
    {
        const string& l = s_lines[0][k];
        if (isdata)
        {
            WK w;
            if (sscanf(l.c_str(), "%lf%lf%lf%lf%lf%lf%lf%lf%lf%lf%lf", w.a, w.a + 1, w.a + 2, w.a + 3, w.a + 4,
                        &w.c, w.b, w.b + 1, w.b + 2, w.b + 3, w.b + 4) == 11) s_wk[sym] = w;
            s_data[0].push_back(k);
            isdata = false;
        }
        else if (l.substr(0, 2) == "#S") sym = split(l).at(2);
        else if (l.substr(0, 2) == "#L") isdata = true;
    }
    for (size_t k = 0; k < s_lines[1].size(); ++k)
    {
        vector<string> w = split(s_lines[1][k]);
        if (w.empty() || w[0][0] == '#') continue;
        s_data[1].push_back(k);
        int z = atoi(w.at(1).c_str());
        s_en[w[0]] = z;
        for (size_t j = 2; j < w.size(); ++j)
        {
            int v = atoi(w[j].c_str());
            s_en[w[0] + to_string(abs(v)) + (v > 0 ? "+" : "-")] = z - v;
        }
    }
    s_bc = parsensf(s_lines[2], &s_data[2]);
    s_bc["n"] = s_bc["1-n"]; s_bc["D"] = s_bc["2-H"]; s_bc["T"] = s_bc["3-H"];
    bool header = true, loop = false;
    for (size_t k = 0; k < s_lines[3].size(); ++k)
    {
        vector<string> w = split(s_lines[3][k]);
        if (header) { if (loop && w.empty()) header = false; if (!w.empty() && w[0] == "_valence_param_B") loop = true; continue; }
        if (w.empty() || w[0][0] == '#') continue;
        s_data[3].push_back(k);
        BVK b{w.at(0), atoi(w.at(1).c_str()), w.at(2), atoi(w.at(3).c_str()), atof(w.at(4).c_str()), atof(w.at(5).c_str()), w.at(6)};
        s_bv.push_back(b);
    }
    for (auto& kv : s_wk) s_xsym.push_back(kv.first);
    for (auto& kv : s_en) s_esym.push_back(kv.first);
    for (auto& kv : s_bc) s_nsym.push_back(kv.first);
    for (auto& b : s_bv) s_bvsym.push_back({b.a0 + to_string(abs(b.v0)) + (b.v0 > 0 ? "+" : "-"),
            b.a1 + to_string(abs(b.v1)) + (b.v1 > 0 ? "+" : "-")});
    const vector<string> variants = {"Na+", "Cl-", "Cl1-", "O2-", "O", "Fe3+", "Fe+", "12-C", "13-C", "C4+", "D", "T", "n", "Xx",
        "", "0", "?", "Na2+", "Ca", "ca", "Ti4+", "O1-", "2-H", "H+", "H-", "Lr", "Tc", "Pu3+", " Na", "Na ", "S6+", "Siv"};
    for (auto* v : {&s_xsym, &s_esym, &s_nsym}) v->insert(v->end(), variants.begin(), variants.end());
    const vector<array<string,2>> bvv = {{"Cl-", "Na+"}, {"Na", "Cl"}, {"Xx3+", "O2-"}, {"O2-", "Ti4+"}, {"Na+", "Na+"},
        {"Fe5+", "O2-"}, {"U3+", "O2-"}, {"Ac7+", "F-"}, {"", ""}, {"O2-", "O2-"}, {"C8+", "C4-"}};
    s_bvsym.insert(s_bvsym.end(), bvv.begin(), bvv.end());
}

// --- look-ups -----------------------------------------------------------------------

typedef vector<double> Val;
static const vector<string> sfttypes = {"xray", "electron", "electronnumber", "neutron"};

struct Objects
{
    vector<ScatteringFactorTablePtr> sft;
    BVParametersTable bv;
    PQPtr pdf[3], bvs;
    vector<StructureAdapterPtr> stru;
    Objects()
    {
        for (auto& t : sfttypes) sft.push_back(ScatteringFactorTable::createByType(t));
        for (int k = 0; k < 3; ++k)
        {
            PDFCalculator* pc = new PDFCalculator;
            pc->setScatteringFactorTableByType(sfttypes[k == 0 ? 0 : k + 1]);
            pc->setRmax(5);
            pc->setRstep(0.1);
            pdf[k].reset(pc);
        }
        bvs.reset(new BVSCalculator);
        bvs->setRmax(4);
        static const char* at[4][3] = {{"Na1+", "Cl1-", "Cl1-"}, {"Ti4+", "O2-", "O2-"}, {"Ca", "F", "C"}, {"Pb2+", "S2-", "D"}};
        for (auto& t : at)
        {
            AtomicStructureAdapterPtr a(new AtomicStructureAdapter);
            for (int k = 0; k < 3; ++k)
            {
                Atom x;
                x.atomtype = t[k];
                x.xyz_cartn = R3::Vector(0.3 + 1.31 * k, 0.2 * k * k, 0.1);
                for (int i = 0; i < 3; ++i) x.uij_cartn(i, i) = 0.01;
                a->append(x);
            }
            stru.push_back(a);
        }
    }
};

static string kindstr(int k)
{
    static const char* n[] = {"fxrayatq", "fxrayatstol", "felectronatq", "electronnumber", "bcneutron", "BVParametersTable.lookup",
        "BVParametersTable.getAll", "ScatteringFactorTable.lookup", "PDFCalculator", "BVSCalculator"};
    return n[k];
}

static void pushbv(Val& v, const BVParam& b)
{
    v.push_back(b.mRo); v.push_back(b.mB); v.push_back(b.mvalence0); v.push_back(b.mvalence1);
    v.push_back(double(hashstr(b.matom0 + "," + b.matom1 + "," + b.mref_id) >> 12));
}

struct Arm { long at, n; };

// the arguments are made before the memory starts to fail
static Val lookup(Objects& ob, int kind, long isym, long iq, long iobj, Arm arm = {0, 0})
{
    auto& syms = kind == ENUM ? s_esym : kind == BCN ? s_nsym : s_xsym;
    const string sym = kind == SFT ? (iobj % 4 < 2 ? s_xsym : iobj % 4 == 2 ? s_esym : s_nsym)[isym %
        (iobj % 4 < 2 ? s_xsym : iobj % 4 == 2 ? s_esym : s_nsym).size()] : syms[isym % syms.size()];
    const auto& bs = s_bvsym[isym % s_bvsym.size()];
    const double q = s_q[iq % s_q.size()];
    Val v;
    v.reserve(64);
    BVParametersTable::SetOfBVParam all;
    if (arm.at) seam::alloc_arm(arm.at, arm.n);
    switch (kind)
    {
        case FXQ: v.push_back(fxrayatq(sym, q)); break;
        case FXS: v.push_back(fxrayatstol(sym, q / 10)); break;
        case FEQ: v.push_back(felectronatq(sym, q)); break;
        case ENUM: v.push_back(electronnumber(sym)); break;
        case BCN: v.push_back(bcneutron(sym)); break;
        case BVL: { const BVParam& b = ob.bv.lookup(bs[0], bs[1]); seam::alloc_disarm(); pushbv(v, b); break; }
        case BVALL: all = ob.bv.getAll(); break;
        case SFT: v.push_back(ob.sft[iobj % 4]->lookup(sym, q)); break;
        case PDF:
            {
                PairQuantity* pq = ob.pdf[iobj % 3].get();
                pq->eval(ob.stru[isym % ob.stru.size()]);
                v = static_cast<PDFCalculator*>(pq)->getRDF();
                break;
            }
        case BVS:
            {
                ob.bvs->eval(ob.stru[isym % ob.stru.size()]);
                v = ob.bvs->value();
                break;
            }
    }
    seam::alloc_disarm();
    if (kind == BVALL)
    {
        map<string,Val> m;
        for (const BVParam& b : all)
        {
            Val x;
            pushbv(x, b);
            m[b.matom0 + "," + to_string(b.mvalence0) + "," + b.matom1 + "," + to_string(b.mvalence1)] = x;
        }
        for (auto& kv : m) v.insert(v.end(), kv.second.begin(), kv.second.end());
    }
    return v;
}

// --- true values ----------------------------------------------------------------------

struct Truth { bool raises; Val v; };
// look-ups of all arguments in an untouched process
static map<array<long,4>,Truth> s_pristine;
static array<long,4> key(int kind, long isym, long iq, long iobj)
{
    long ns = kind == ENUM ? s_esym.size() : kind == BCN ? s_nsym.size() : kind == BVL ? s_bvsym.size() :
        kind == BVALL ? 1 : kind == SFT ? (iobj % 4 < 2 ? s_xsym.size() : iobj % 4 == 2 ? s_esym.size() : s_nsym.size()) :
        kind == PDF || kind == BVS ? 4 : s_xsym.size();
    bool hasq = kind == FXQ || kind == FXS || kind == FEQ || kind == SFT;
    long no = kind == SFT ? 4 : kind == PDF ? 3 : 1;
    return {kind, isym % ns, hasq ? iq % long(s_q.size()) : 0, iobj % no};
}
static vector<array<long,4>> s_keys;

static void allkeys()
{
    for (int k = 0; k < NLOOK; ++k)
        for (long o = 0; o < 4; ++o) for (long s = 0; s < 4000; ++s) for (long q = 0; q < long(s_q.size()); ++q)
        {
            array<long,4> a = key(k, s, q, o);
            if (a[1] != s || a[2] != q || a[3] != o) continue;
            s_keys.push_back(a);
        }
}

static double wkx(const WK& w, double stol)
{
    double rv = w.c;
    for (int i = 0; i < 5; ++i) rv += w.a[i] * exp(-w.b[i] * stol * stol);
    return rv;
}
// value from the independent reading for symbols as in the file
static bool fromfile(const array<long,4>& a, Val& v)
{
    const int kind = a[0];
    const double q = s_q[a[2]];
    auto wk = [&](const string& s, bool el, double stol) {
        auto it = s_wk.find(s);
        if (it == s_wk.end()) return false;
        double f = wkx(it->second, stol);
        if (el)
        {
            double z = round(wkx(it->second, 0));
            f = stol == 0 ? DBL_MAX : 0.023934 * (z - f) / (stol * stol);
        }
        v = {f};
        return true;
    };
    auto en = [&](const string& s) { auto it = s_en.find(s); if (it == s_en.end()) return false; v = {double(it->second)}; return true; };
    auto bc = [&](const string& s) { auto it = s_bc.find(s); if (it == s_bc.end()) return false; v = {it->second}; return true; };
    switch (kind)
    {
        case FXQ: return wk(s_xsym[a[1]], false, q / (4 * M_PI));
        case FXS: return wk(s_xsym[a[1]], false, q / 10);
        case FEQ: return wk(s_xsym[a[1]], true, q / (4 * M_PI));
        case ENUM: return en(s_esym[a[1]]);
        case BCN: return bc(s_nsym[a[1]]);
        case SFT:
            if (a[3] == 0) return wk(s_xsym[a[1]], false, q / (4 * M_PI));
            if (a[3] == 1) return wk(s_xsym[a[1]], true, q / (4 * M_PI));
            return a[3] == 2 ? en(s_esym[a[1]]) : bc(s_nsym[a[1]]);
        case BVL:
            {
                if (a[1] >= long(s_bv.size())) return false;
                const BVK& b = s_bv[a[1]];
                if (b.v0 <= b.v1 || abs(b.v0) > 8 || abs(b.v1) > 8 || !b.v0 || !b.v1) return false;
                if (isdigit(b.a0.back()) || isdigit(b.a1.back())) return false;
                BVParam x;
                x.matom0 = b.a0; x.matom1 = b.a1; x.mvalence0 = b.v0; x.mvalence1 = b.v1; x.mRo = b.Ro; x.mB = b.B; x.mref_id = b.ref;
                v.clear();
                pushbv(v, x);
                return true;
            }
        case BVALL:
            {
                map<string,Val> m;
                for (auto& b : s_bv)
                {
                    BVParam y;
                    y.matom0 = b.a0; y.matom1 = b.a1; y.mvalence0 = b.v0; y.mvalence1 = b.v1; y.mRo = b.Ro; y.mB = b.B; y.mref_id = b.ref;
                    if (y.mvalence0 < y.mvalence1) { swap(y.matom0, y.matom1); swap(y.mvalence0, y.mvalence1); }
                    Val t;
                    pushbv(t, y);
                    m[y.matom0 + "," + to_string(y.mvalence0) + "," + y.matom1 + "," + to_string(y.mvalence1)] = t;
                }
                v.clear();
                for (auto& kv : m) v.insert(v.end(), kv.second.begin(), kv.second.end());
                return true;
            }
    }
    return false;
}

static bool same(const Val& a, const Val& b)
{
    if (a.size() != b.size()) return false;
    double h = 0;
    for (double x : b) if (isfinite(x) && fabs(x) < 1e100) h = max(h, fabs(x));
    for (size_t k = 0; k < a.size(); ++k)
        if (!(a[k] == b[k] || fabs(a[k] - b[k]) <= 1e-10 * (a.size() == 1 ? fabs(b[k]) + 1e-3 : h))) return false;
    return true;
}

static void writeall(int fd, const void* p, size_t n)
{
    const char* c = (const char*) p;
    while (n) { ssize_t k = write(fd, c, n); if (k <= 0) _exit(9); c += k; n -= k; }
}
static bool readall(int fd, void* p, size_t n)
{
    char* c = (char*) p;
    while (n) { ssize_t k = read(fd, c, n); if (k <= 0) return false; c += k; n -= k; }
    return true;
}

static void prepare()
{
    const char* e = getenv("VSIM_RUNTIME");
    s_runtime = e ? e : "";
    e = getenv("VSIM_SCRATCH");
    s_scratch = strprintf("%s/w%08d", e ? e : "/tmp/vsim-scratch", int(getpid()));
    parse();
    allkeys();
    int pp[2];
    if (pipe(pp)) exit(3);
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0)
    {
        close(pp[0]);
        setenv("DIFFPYRUNTIME", s_runtime.c_str(), 1);
        Objects ob;
        for (auto& a : s_keys)
        {
            long raises = 0;
            Val v;
            try { v = lookup(ob, a[0], a[1], a[2], a[3]); }
            catch (exception&) { raises = 1; }
            long n = v.size();
            writeall(pp[1], &raises, sizeof raises);
            writeall(pp[1], &n, sizeof n);
            writeall(pp[1], v.data(), n * sizeof(double));
        }
        _exit(0);
    }
    close(pp[1]);
    for (auto& a : s_keys)
    {
        long raises, n;
        Truth t;
        if (!readall(pp[0], &raises, sizeof raises) || !readall(pp[0], &n, sizeof n)) break;
        t.raises = raises;
        t.v.resize(n);
        if (!readall(pp[0], t.v.data(), n * sizeof(double))) break;
        s_pristine[a] = t;
    }
    close(pp[0]);
    int st;
    waitpid(pid, &st, 0);
}

// --- scratch directories ------------------------------------------------------------------

static void wipe(const string& d)
{
    // the scratch tree has a known shape
    for (auto s : {"/a", "/b"})
    {
        for (auto f : files) { unlink((d + s + "/" + f).c_str()); rmdir((d + s + "/" + f).c_str()); }
        rmdir((d + s).c_str());
    }
    unlink((d + "/file").c_str());
    rmdir(d.c_str());
}

static string dirpath(int k) { return s_scratch + (k ? "/b" : "/a"); }

static bool setfile(int dir, int f, int state, long seed)
{
    string path = dirpath(dir) + "/" + files[f];
    unlink(path.c_str());
    rmdir(path.c_str());
    Rng r(seed);
    vector<string> l;
    string text;
    if (state >= FEMPTY) l = s_lines[f];
    const int nd = max<int>(1, s_data[f].size());
    const int k = s_data[f].empty() ? 0 : s_data[f][r.below(nd)];
    switch (state)
    {
        case FMISSING: return true;
        case FDIR: mkdir(path.c_str(), 0755); return true;
        case FDANGLING: if (symlink((s_scratch + "/none").c_str(), path.c_str())) { } return true;
        case FOK: if (symlink((s_runtime + "/" + files[f]).c_str(), path.c_str())) { } return false;
        case FEMPTY: l.clear(); break;
        case FTRUNC:
            {
                // a number cut at the end of the last line cannot be recognized
                size_t lim = s_text[f].size();
                if (f == 0)
                {
                    lim = s_text[f].find_last_not_of(" \n\t");
                    lim = s_text[f].find_last_of(" \t", lim);
                }
                text = s_text[f].substr(0, r.below(int(lim)));
                l.clear();
                break;
            }
        case FTRUNCLINE: l.resize(r.below(l.size())); break;
        case FDROP:
            l.erase(l.begin() + (r.chance(0.7) ? k : r.below(l.size())));
            // an element that is taken from its isotope instead is no malformed content
            if (f == 2 && parsensf(l, 0).size() + 3 == s_bc.size()) l.clear();
            break;
        case FDUP: { int j = r.chance(0.7) ? k : r.below(l.size()); string x = l[j]; l.insert(l.begin() + j, x); break; }
        case FGARBAGE: l.insert(l.begin() + k, r.chance(0.5) ? "@@@@ garbage" : "Garbage, 1, 2 3"); break;
        case FBADNUM:
        case FLOSTCOL:
            {
                vector<string> w = split(l[k], f == 2 ? ',' : 0);
                int j;
                // a line with extra columns may be well formed without one of them
                if (f == 3 && state == FLOSTCOL && w.size() > 8) w.resize(8);
                if (state == FLOSTCOL) { j = r.below(w.size()); w.erase(w.begin() + j); }
                else
                {
                    static const vector<int> bvw = {1, 3, 4, 5};
                    j = f == 0 ? r.below(w.size()) : f == 1 ? r.range(1, w.size() - 1) : f == 2 ? 3 : r.pick(bvw);
                    w[j] = "xxx";
                }
                l[k].clear();
                for (size_t i = 0; i < w.size(); ++i) l[k] += (i ? (f == 2 ? "," : " ") : "") + w[i];
                break;
            }
    }
    for (auto& x : l) text += x + "\n";
    ofstream(path) << text;
    return true;
}

// --- scenarios ----------------------------------------------------------------------------

static Scenario gen(uint64_t seed, bool thorough)
{
    Rng r(seed ^ 0xc06);
    Scenario sc;
    sc.prop = "C06";
    sc.seed = seed;
    auto add = [&](const string& n, vector<long> i = {}, vector<string> s = {}) { sc.ops.push_back(Op(n, i, {}, s)); };
    const int n = thorough ? r.range(5, 60) : r.range(3, 25);
    const bool onlyio = r.chance(0.25), nofiles = onlyio || r.chance(0.3);
    const double palloc = onlyio ? 0 : r.pick(vector<double>{0, 0.2, 0.6});
    vector<double> wk = {2, 1, 2, 2, 2, 2, 0.5, 2, 0.5, 0.5};
    if (r.chance(0.4)) for (double& w : wk) w *= r.chance(0.5) ? 0.05 : 1;     // focus on some tables
    const bool locales = r.chance(0.3);
    if (locales && r.chance(0.5)) add("locale", {r.range(1, seam::NLOCALE - 1)});
    auto look = [&]() {
        int k = r.weighted(wk);
        if (r.chance(palloc)) add("alloc", {long(exp(r.uni(0, log(12000.)))), r.pick(vector<int>{1, 1, 1, 3, 1000000})});
        add("look", {k, r.below(100000), r.below(6), r.below(12)});
    };
    for (int step = 0; step < n; ++step)
    {
        double u = r.uni();
        if (u < 0.08) add("env", {r.pick(vector<int>{0, 0, 0, 0, 1, 1, 2, 3, 4, 5})});
        else if (u < 0.3 && !nofiles)
            add("file", {r.chance(0.7) ? 0 : 1, r.below(4), r.below(NFSTATE), long(r.u64() >> 33)});
        else if (u < 0.45)
        {
            string what = r.chance(0.25) ? "open" : "read";
            string mode = what == "open" ? "error" : r.pick(vector<string>{"error", "error", "eof", "short"});
            long at = what == "open" ? r.pick(vector<int>{1, 1, 2}) : r.range(1, r.chance(0.5) ? 3 : 13);
            long nn = mode == "short" ? r.pick(vector<int>{1, 5, 100}) : r.pick(vector<int>{1, 1, 2, 1000000});
            long err = what == "open" ? r.pick(vector<int>{EACCES, EMFILE, EIO, ENOENT, EINTR, ENOMEM}) :
                r.pick(vector<int>{EIO, EIO, EISDIR, EAGAIN, EINTR, ENOMEM});
            if (err == EINTR) nn = min(nn, 5L);
            add("io", {at, nn, err}, {what, mode, r.chance(0.3) ? "" : files[r.below(4)]});
        }
        else if (u < 0.5) add("ioclear");
        else if (u < 0.53) add("heal");
        else if (u < 0.57 && locales) add("locale", {r.below(seam::NLOCALE)});
        else if (u < 0.57) add("custom", {r.below(4), r.below(100000), r.below(100000)});
        else look();
        if (!sc.ops.empty() && sc.ops.back().n != "look" && r.chance(0.6)) look();
    }
    add("sweep");
    return sc;
}

static void run(const Scenario& sc, Ctx& ctx)
{
    mkdir(s_scratch.substr(0, s_scratch.rfind('/')).c_str(), 0755);
    // the run is a child of the process that owns the scratch directory
    wipe(s_scratch);
    mkdir(s_scratch.c_str(), 0755);
    for (int d = 0; d < 2; ++d)
    {
        mkdir(dirpath(d).c_str(), 0755);
        for (int f = 0; f < 4; ++f) setfile(d, f, FOK, 0);
    }
    ofstream(s_scratch + "/file") << "regular file";
    seam::g_iowatch = {s_scratch};
    seam::g_ioarmed = true;
    Objects ob;
    int fstate[2][4] = {};
    int env = 0;
    auto setenvk = [&](int k) {
        env = k;
        static const char* sub[] = {"/a", "/b", "/none", "", "/a//", "/file"};
        if (k == 3) unsetenv("DIFFPYRUNTIME");
        else setenv("DIFFPYRUNTIME", (s_scratch + sub[k]).c_str(), 1);
    };
    setenvk(0);
    bool loaded[4] = {};
    auto filefor = [](int kind, long o) {
        return kind == FXQ || kind == FXS || kind == FEQ ? 0 : kind == ENUM ? 1 : kind == BCN ? 2 :
            kind == SFT ? (o % 4 < 2 ? 0 : o % 4 == 2 ? 1 : 2) : kind == PDF ? (o % 3 == 0 ? 0 : o % 3 == 1 ? 1 : 2) : 3;
    };
    auto heal = [&]() {
        seam::io_clear();
        // no rules are left that could meet the writes below
        for (int d = 0; d < 2; ++d) for (int f = 0; f < 4; ++f) { setfile(d, f, FOK, 0); fstate[d][f] = FOK; }
        if (env == 2 || env == 3 || env == 5) setenvk(0);
    };
    Arm arm = {0, 0};
    auto nfired = [&]() {
        long rv = 0;
        for (auto& kv : seam::g_iocount) rv += kv.second;
        return rv;
    };
    auto check = [&](const array<long,4>& a, bool mustok) {
        string exc;
        Val v;
        const int f = filefor(a[0], a[3]);
        const int d = env == 1;
        bool fault = env == 2 || env == 3 || env == 5 || fstate[d][f] != FOK;
        long n0 = nfired();
        try { v = lookup(ob, a[0], a[1], a[2], a[3], arm); }
        catch (const bad_alloc&) { seam::alloc_disarm(); exc = "bad_alloc"; }
        catch (const exception& e) { seam::alloc_disarm(); exc = demangle(typeid(e).name()); }
        if (arm.at && seam::g_alloc.fired) { fault = true; ctx.count("fault.alloc"); }
        arm = {0, 0};
        if (nfired() != n0) fault = true;
        auto it = s_pristine.find(a);
        Val t;
        bool raises = it == s_pristine.end() || it->second.raises;
        bool file = fromfile(a, t);
        if (file) raises = false;
        else if (!raises) t = it->second.v;
        if (!mustok)
        {
            ctx.log("look %ld %ld %ld %ld fault %d -> %s", a[0], a[1], a[2], a[3], int(fault), exc.c_str());
            ctx.logd("v", v);
            ctx.feat(strprintf("%ld %d %d %d %s", a[0], fstate[d][f], env, int(loaded[f]), exc.c_str()));
        }
        const string kn = kindstr(a[0]);
        string smb = a[0] == BVL ? s_bvsym[a[1]][0] + " " + s_bvsym[a[1]][1] : a[0] == ENUM ? s_esym[a[1]] : a[0] == BCN ?
            s_nsym[a[1]] : a[0] == SFT ? sfttypes[a[3]] + " " + (a[3] < 2 ? s_xsym : a[3] == 2 ? s_esym : s_nsym)[a[1]] :
            a[0] >= BVALL ? "" : s_xsym[a[1]];
        if (!exc.empty())
        {
            if (!fault && !raises) ctx.fail("raises:" + kn, "%s(%s) raises %s without any fault", kn.c_str(), smb.c_str(), exc.c_str());
            if (fault) ctx.count("nontrivial");
            return;
        }
        if (raises) ctx.fail("unknown-symbol:" + kn, "%s(%s) gives a value for an unknown symbol", kn.c_str(), smb.c_str());
        if (!same(v, t))
        {
            string s1, s2;
            for (size_t k = 0; k < v.size() && k < 4; ++k) s1 += strprintf(" %.10g", v[k]);
            for (size_t k = 0; k < t.size() && k < 4; ++k) s2 += strprintf(" %.10g", t[k]);
            ctx.fail("wrong-value:" + kn, "%s(%s) gives %zu numbers%s, true are %zu%s%s", kn.c_str(), smb.c_str(), v.size(),
                    s1.c_str(), t.size(), s2.c_str(), fault ? " (while there was a fault)" : "");
        }
        if (!loaded[f]) loaded[f] = true;
        ctx.count(mustok ? "sweep.lookups" : "lookups");
    };
    for (const Op& op : sc.ops)
    {
        if (op.n == "env") { setenvk(labs(op.I(0)) % 6); ctx.count(strprintf("env.%d", env)); }
        else if (op.n == "file")
        {
            int d = op.I(0) & 1, f = op.I(1) & 3, st = labs(op.I(2)) % NFSTATE;
            seam::g_ioarmed = false;
            setfile(d, f, st, op.I(3));
            seam::g_ioarmed = true;
            fstate[d][f] = st;
            ctx.count(string("fault.file.") + fsname[st]);
        }
        else if (op.n == "io")
        {
            seam::IoRule rule{op.S(0), op.S(2), op.I(0, 1), op.I(1, 1), int(op.I(2)), op.S(1), 0, 0};
            seam::g_iorules.push_back(rule);
        }
        else if (op.n == "locale")
        {
            seam::set_locale(labs(op.I(0)) % seam::NLOCALE);
            ctx.count("fault.locale");
        }
        else if (op.n == "ioclear") seam::io_clear();
        else if (op.n == "heal") heal();
        else if (op.n == "alloc") arm = {max(1L, op.I(0)), max(1L, op.I(1))};
        else if (op.n == "look") check(key(labs(op.I(0)) % NLOOK, op.I(1), op.I(2), op.I(3)), false);
        else if (op.n == "custom")
        {
            // a rescaled entry needs the value of its source, nothing changes on failure
            const int o = op.I(0) & 3;
            auto& syms = o < 2 ? s_xsym : o == 2 ? s_esym : s_nsym;
            const string src = syms[op.I(1) % syms.size()];
            const double q = s_q[op.I(2) % s_q.size()];
            string exc;
            try { ob.sft[o]->setCustomAs("Custom1", src, 3.5, q); }
            catch (const exception& e) { exc = demangle(typeid(e).name()); }
            ctx.log("custom %d -> %s", o, exc.c_str());
            if (exc.empty())
            {
                double v = ob.sft[o]->lookup("Custom1", q);
                if (fabs(v - 3.5) > 1e-9)
                    ctx.fail("custom", "custom value %g instead of 3.5", v);
                ob.sft[o]->resetCustom("Custom1");
            }
            else if (ob.sft[o]->getCustomSymbols().size())
                ctx.fail("custom", "failed setCustomAs left a custom entry");
        }
        else if (op.n == "sweep")
        {
            heal();
            arm = {0, 0};
            // a part of all look-ups, by the seed
            Rng r(sc.seed);
            const long step = r.chance(0.5) ? 1 : r.range(5, 40);
            for (size_t k = r.below(step); k < s_keys.size(); k += step) check(s_keys[k], true);
            for (long k : {BVALL, BVS}) check(key(k, 0, 0, 0), true);
            ctx.log("sweep");
        }
    }
    for (auto& kv : seam::g_iocount) ctx.count("fault.io." + kv.first, kv.second);
    seam::g_ioarmed = false;
    wipe(s_scratch);
}

static Register reg(Property{"C06", gen, run, prepare});

}   // namespace sim
