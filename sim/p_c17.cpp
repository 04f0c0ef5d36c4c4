// C17: crystals and molecules of another library, edited over time and
// converted at any moment, against symmetry expansion by that library.
#include "world.hpp"
#include <algorithm>
#include <cmath>
#include <diffpy/srreal/ObjCrystStructureAdapter.hpp>
#include <ObjCryst/ObjCryst/Atom.h>
#include <ObjCryst/ObjCryst/Crystal.h>
#include <ObjCryst/ObjCryst/Molecule.h>
#include <ObjCryst/ObjCryst/ScatteringPower.h>
namespace sim {
using namespace std;
namespace OC = ObjCryst;

// new i=slot,group d=a,b,c,alpha,beta,gamma
// pow i=slot,power,aniso d=biso or 6 bij s=symbol     add or change a power
// add i=slot,power (-1 dummy) d=x,y,z,occ             mol 1: in the molecule
// del i=slot,k   mov i=slot,k d=xyz   occ i=slot,k d=occ  lat i=slot d=6   sg i=slot,group d=6
// f i=failat,n   the next conversion runs out of memory
// conv i=slot,keep      convert and keep as structure
// chk i=keep            a kept structure has not changed
// eval i=slot,calc      reused calculator evaluates the external object
static const int NSLOT = 3, NKEEP = 4, NPOW = 4, NCALC = 4;

struct Group { const char* symbol; int family; };
static const Group GROUPS[] = {
    {"P1", 0}, {"P-1", 0}, {"P21/c", 1}, {"C2/m", 1}, {"Cc", 1}, {"Pnma", 2}, {"Fdd2", 2}, {"Immm", 2}, {"P212121", 2},
    {"I41/amd", 3}, {"P42/n", 3}, {"I-4", 3}, {"P3121", 4}, {"P63/mmc", 4}, {"P-3m1", 4}, {"P6", 4},
    {"Fm-3m", 5}, {"P213", 5}, {"Fd-3m", 5}, {"Im-3m", 5}, {"Pn-3m", 5}, {"R-3m", 4}, {"Ia-3", 5}, {"C2221", 2},
    // other settings of the same groups and origins off the inversion center
    {"P21/n", 1}, {"P1121/b", 7}, {"Pbnm", 2}, {"Cmca", 2}, {"I41/amd:1", 3}, {"P42/n:1", 3}, {"Fd-3m:1", 5}, {"Fddd:1", 2},
    {"Fddd:2", 2}, {"P41", 3}, {"P43", 3}, {"R-3m:R", 6}, {"Pn-3m:1", 5}, {"I41/a:1", 3}, {"I41/a:2", 3}, {"P1121", 7},
    {"P21", 1}, {"I2/a", 1}, {"C2/c", 1}, {"Fd-3c:1", 5}, {"P4/n:1", 3}, {"P4/n:2", 3},
};
// groups that share a number, a point group or a name but for the setting
static const vector<vector<const char*>> KIN = {
    {"P21/c", "P21/n", "P1121/b"}, {"Pnma", "Pbnm"}, {"I41/amd", "I41/amd:1"}, {"P42/n", "P42/n:1"}, {"Fd-3m", "Fd-3m:1"},
    {"Fddd:1", "Fddd:2"}, {"P41", "P43"}, {"R-3m", "R-3m:R"}, {"Pn-3m", "Pn-3m:1"}, {"I41/a:1", "I41/a:2"}, {"P21", "P1121"},
    {"I2/a", "C2/c"}, {"P4/n:1", "P4/n:2"},
};
static const int NGROUP = sizeof GROUPS / sizeof *GROUPS;

struct V3 { double x[3]; double& operator[](int k) { return x[k]; } double operator[](int k) const { return x[k]; } };
struct M3 { double m[3][3]; };
static V3 mul(const M3& a, const V3& v) { V3 r; for (int i = 0; i < 3; ++i) r[i] = a.m[i][0] * v[0] + a.m[i][1] * v[1] + a.m[i][2] * v[2]; return r; }
static M3 mul(const M3& a, const M3& b)
{
    M3 r;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
    { r.m[i][j] = 0; for (int k = 0; k < 3; ++k) r.m[i][j] += a.m[i][k] * b.m[k][j]; }
    return r;
}
static M3 tr(const M3& a) { M3 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.m[i][j] = a.m[j][i]; return r; }
static M3 inv(const M3& a)
{
    M3 r;
    double d = 0;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
    {
        int i1 = (i + 1) % 3, i2 = (i + 2) % 3, j1 = (j + 1) % 3, j2 = (j + 2) % 3;
        r.m[j][i] = a.m[i1][j1] * a.m[i2][j2] - a.m[i1][j2] * a.m[i2][j1];
        if (i == 0) d += a.m[i][j] * r.m[j][i];
    }
    for (auto& x : r.m) for (double& y : x) y /= d;
    return r;
}
static double dist(const V3& a, const V3& b) { return sqrt(pow(a[0] - b[0], 2) + pow(a[1] - b[1], 2) + pow(a[2] - b[2], 2)); }

struct Pow { bool set = false; string symbol; bool aniso = false; double b[6] = {1, 0, 0, 0, 0, 0}; OC::ScatteringPowerAtom* p = nullptr; };
struct Site { double x[3]; double occ; int pow; OC::Atom* a = nullptr; };
struct Ext
{
    bool mol = false;
    Pow pw[NPOW];
    vector<Site> sites;
    boost::shared_ptr<OC::Crystal> c;
    OC::Molecule* m = nullptr;
};

// what the converted structure has to be
struct Image { V3 f; M3 rot; };
struct XSite { string type; double occ; bool aniso; double b[6]; V3 f; vector<Image> images; bool unclear = false, special = false; };
struct Expected
{
    bool mol = false;
    double lp[6];               // degrees
    vector<XSite> sites;
    vector<pair<V3,M3>> dummy;
    int nops = 1;
};
struct Kept { StructureAdapterPtr s; Expected e; };

struct T17
{
    Ctx& ctx;
    Ext ext[NSLOT];
    Kept kept[NKEEP];
    PQPtr calc[NCALC];
    StructureAdapterPtr calcstru[NCALC];
    long failat = 0, nfail = 0;
    string where;
    T17(Ctx& c) : ctx(c) { }

    static double wrap(double x) { return x - floor(x + 0.5); }

    Expected expected(Ext& e)
    {
        Expected rv;
        rv.mol = e.mol;
        for (int k = 0; k < 6; ++k) rv.lp[k] = e.c->GetLatticePar(k) * (k < 3 ? 1 : 180 / M_PI);
        const OC::SpaceGroup& sg = e.c->GetSpaceGroup();
        for (auto& s : e.sites)
        {
            if (s.pow < 0) continue;
            XSite x;
            const Pow& p = e.pw[s.pow];
            x.type = p.symbol;
            x.occ = s.occ;
            x.aniso = p.aniso;
            copy(p.b, p.b + 6, x.b);
            for (int k = 0; k < 3; ++k) x.f[k] = s.x[k];
            // atoms may be moved to an equivalent position in their crystal
            if (s.a) x.f = V3{{s.a->GetX(), s.a->GetY(), s.a->GetZ()}};
            rv.sites.push_back(x);
        }
        if (e.mol) return rv;
        // standard metric: x along a, b in the xy plane
        const double* L = rv.lp;
        M3 B = base(L);
        for (auto& x : rv.sites)
        {
            auto all = [&](double a, double b, double c) {
                CrystMatrix_REAL m = sg.GetAllSymmetrics(a, b, c);
                vector<V3> v;
                for (int k = 0; k < m.rows(); ++k) v.push_back(V3{{m(k, 0), m(k, 1), m(k, 2)}});
                return v;
            };
            vector<V3> o = all(0, 0, 0), q[3] = {all(1, 0, 0), all(0, 1, 0), all(0, 0, 1)};
            rv.nops = int(o.size());
            for (size_t k = 0; k < o.size(); ++k)
            {
                Image im;
                for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) im.rot.m[i][j] = q[j][k][i] - o[k][i];
                im.f = mul(im.rot, x.f);
                for (int i = 0; i < 3; ++i) im.f[i] += o[k][i];
                x.images.push_back(im);
            }
            // positions too close to tell, and special ones
            for (size_t i = 0; i < x.images.size(); ++i) for (size_t j = 0; j < i; ++j)
            {
                V3 d, z{{0, 0, 0}};
                for (int k = 0; k < 3; ++k) d[k] = wrap(x.images[i].f[k] - x.images[j].f[k]);
                double r = dist(mul(B, d), z);
                if (r < 0.05) { x.special = true; if (r > 1e-8) x.unclear = true; }
            }
        }
        return rv;
    }

    // columns are base vectors
    static M3 base(const double* L)
    {
        double ca = cos(L[3] * M_PI / 180), cb = cos(L[4] * M_PI / 180), cg = cos(L[5] * M_PI / 180), sg = sin(L[5] * M_PI / 180);
        double cx = cb, cy = (ca - cb * cg) / sg, cz = sqrt(max(0., 1 - cx * cx - cy * cy));
        M3 B = {{{L[0], L[1] * cg, L[2] * cx}, {0, L[1] * sg, L[2] * cy}, {0, 0, L[2] * cz}}};
        return B;
    }

    static M3 mat(const R3::Matrix& u) { M3 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.m[i][j] = u(i, j); return r; }
    static double diff(const M3& a, const M3& b) { double d = 0; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) d = max(d, fabs(a.m[i][j] - b.m[i][j])); return d; }

    void verify(const StructureAdapterPtr& s, const Expected& e, bool bonds)
    {
        const char* w = where.c_str();
        const int n = int(e.sites.size());
        if (s->countSites() != n) ctx.fail("sites", "%s: %d sites, expected %d", w, s->countSites(), n);
        auto cs = boost::dynamic_pointer_cast<CrystalStructureAdapter>(s);
        if (!e.mol && !cs) ctx.fail("kind", "%s: not a crystal", w);
        if (e.mol && (cs || boost::dynamic_pointer_cast<PeriodicStructureAdapter>(s))) ctx.fail("kind", "%s: periodic molecule", w);
        // base vectors of the adapter, any orientation with the right metric
        M3 M = {{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}}, G = M;
        if (cs)
        {
            const Lattice& L = cs->getLattice();
            R3::Vector v[3] = {L.cartesian(R3::Vector(1, 0, 0)), L.cartesian(R3::Vector(0, 1, 0)), L.cartesian(R3::Vector(0, 0, 1))};
            for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) M.m[i][j] = v[j][i];
            M3 g = mul(tr(M), M), B = base(e.lp), h = mul(tr(B), B);
            if (diff(g, h) > 1e-7 * (1 + e.lp[0] * e.lp[0] + e.lp[1] * e.lp[1] + e.lp[2] * e.lp[2]))
                ctx.fail("lattice", "%s: lattice differs", w);
            G = h;
        }
        const M3 Mi = inv(M);
        double occ = 0;
        int total = 0;
        for (int i = 0; i < n; ++i)
        {
            const XSite& x = e.sites[i];
            if (s->siteAtomType(i) != x.type) ctx.fail("type", "%s: site %d %s, expected %s", w, i, s->siteAtomType(i).c_str(), x.type.c_str());
            if (fabs(s->siteOccupancy(i) - x.occ) > 1e-12) ctx.fail("occupancy", "%s: site %d %g, expected %g", w, i, s->siteOccupancy(i), x.occ);
            if (s->siteAnisotropy(i) != x.aniso) ctx.fail("anisotropy", "%s: site %d", w, i);
            V3 p = mul(M, x.f), q;
            const R3::Vector& r = s->siteCartesianPosition(i);
            for (int k = 0; k < 3; ++k) q[k] = r[k];
            if (dist(p, q) > 1e-7) ctx.fail("position", "%s: site %d", w, i);
            // displacement tensor
            M3 U = {{{x.b[0], x.b[3], x.b[4]}, {x.b[3], x.b[1], x.b[5]}, {x.b[4], x.b[5], x.b[2]}}};
            for (auto& a : U.m) for (double& b : a) b /= 8 * M_PI * M_PI;
            if (!x.aniso) { for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) U.m[a][b] = a == b ? x.b[0] / (8 * M_PI * M_PI) : 0; }
            else if (!e.mol)
            {
                // U refers to axes scaled by lengths of reciprocal vectors
                double ar[3];
                for (int k = 0; k < 3; ++k) ar[k] = sqrt(Mi.m[k][0] * Mi.m[k][0] + Mi.m[k][1] * Mi.m[k][1] + Mi.m[k][2] * Mi.m[k][2]);
                M3 N = M;
                for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) N.m[a][b] *= ar[b];
                U = mul(mul(N, U), tr(N));
            }
            if (diff(U, mat(s->siteCartesianUij(i))) > 1e-9) ctx.fail("displacement", "%s: site %d", w, i);
            if (e.mol)
            {
                if (s->siteMultiplicity(i) != 1) ctx.fail("multiplicity", "%s: site %d", w, i);
                occ += x.occ;
                continue;
            }
            if (x.unclear) { total = -1; continue; }
            // equivalent atoms, each once
            vector<Image> uniq;
            vector<vector<M3>> us;
            for (auto& im : x.images)
            {
                M3 S = mul(mul(M, im.rot), Mi), T = mul(mul(S, U), tr(S));
                size_t k = 0;
                for (; k < uniq.size(); ++k)
                {
                    bool same = true;
                    for (int j = 0; j < 3; ++j) same &= fabs(wrap(uniq[k].f[j] - im.f[j])) < 1e-6;
                    if (same) break;
                }
                if (k == uniq.size()) { uniq.push_back(im); us.push_back({}); }
                us[k].push_back(T);
            }
            const int mult = int(uniq.size());
            if (s->siteMultiplicity(i) != mult)
                ctx.fail("multiplicity", "%s: site %d %d, expected %d", w, i, s->siteMultiplicity(i), mult);
            CrystalStructureAdapter::AtomVector eq = cs->getEquivalentAtoms(i);
            if (int(eq.size()) != mult) ctx.fail("equivalent-atoms", "%s: site %d: %zu, expected %d", w, i, eq.size(), mult);
            vector<char> hit(mult, 0);
            for (auto& a : eq)
            {
                V3 c{{a.xyz_cartn[0], a.xyz_cartn[1], a.xyz_cartn[2]}}, f = mul(Mi, c);
                int k = 0;
                for (; k < mult; ++k)
                {
                    bool same = true;
                    for (int j = 0; j < 3; ++j) same &= fabs(wrap(uniq[k].f[j] - f[j])) < 1e-5;
                    if (same) break;
                }
                if (k == mult || hit[k]) ctx.fail("equivalent-atoms", "%s: site %d: %s position", w, i, k == mult ? "wrong" : "repeated");
                hit[k] = 1;
                if (a.atomtype != x.type || a.occupancy != x.occ || a.anisotropy != x.aniso) ctx.fail("equivalent-content", "%s: site %d", w, i);
                bool ok = false;
                for (auto& T : us[k]) ok |= diff(T, mat(a.uij_cartn)) < 1e-8;
                // isotropic tensors stay as they are
                if (!x.aniso) ok = diff(U, mat(a.uij_cartn)) < 1e-8;
                if (!ok) ctx.fail("equivalent-displacement", "%s: site %d", w, i);
            }
            occ += mult * x.occ;
            if (total >= 0) total += mult;
            ctx.count("checked", mult);
            if (x.special) ctx.count("special-positions");
        }
        if (total >= 0)
        {
            if (fabs(s->totalOccupancy() - occ) > 1e-9 * (1 + occ)) ctx.fail("occupancy", "%s: total %g, expected %g", w, s->totalOccupancy(), occ);
            double det = G.m[0][0] * (G.m[1][1] * G.m[2][2] - G.m[1][2] * G.m[2][1]) - G.m[0][1] * (G.m[1][0] * G.m[2][2] - G.m[1][2] * G.m[2][0])
                + G.m[0][2] * (G.m[1][0] * G.m[2][1] - G.m[1][1] * G.m[2][0]);
            double nd = e.mol ? 0 : occ / sqrt(det);
            if (fabs(s->numberDensity() - nd) > 1e-7 * (1 + nd)) ctx.fail("density", "%s: %g, expected %g", w, s->numberDensity(), nd);
        }
        if (bonds && total >= 0) neighbours(s, e, M);
    }

    void neighbours(const StructureAdapterPtr& s, const Expected& e, const M3& M)
    {
        const double rmax = 3.5;
        const int n = int(e.sites.size());
        BaseBondGeneratorPtr b = s->createBondGenerator();
        b->setRmax(rmax);
        // translations that can reach
        M3 Mi = inv(M);
        int h[3] = {0, 0, 0};
        if (!e.mol) for (int k = 0; k < 3; ++k)
            h[k] = int(ceil(rmax * sqrt(Mi.m[k][0] * Mi.m[k][0] + Mi.m[k][1] * Mi.m[k][1] + Mi.m[k][2] * Mi.m[k][2]))) + 1;
        const int i = int(s->countSites() ? (ctx.cnt["neighbours"] * 7) % n : 0);
        if (!n) return;
        b->selectAnchorSite(i);
        vector<pair<int,double>> got, exp;
        for (b->rewind(); !b->finished(); b->next()) got.push_back({b->site1(), b->distance()});
        V3 p = mul(M, e.sites[i].f);
        for (int j = 0; j < n; ++j)
        {
            vector<V3> u;
            for (auto& im : e.sites[j].images)
            {
                bool dup = false;
                for (auto& v : u)
                {
                    bool same = true;
                    for (int k = 0; k < 3; ++k) same &= fabs(wrap(v[k] - im.f[k])) < 1e-6;
                    dup |= same;
                }
                if (!dup) u.push_back(im.f);
            }
            if (e.mol) u = {e.sites[j].f};
            for (auto& f : u)
            {
                V3 g = f;
                if (!e.mol) for (int k = 0; k < 3; ++k) g[k] = e.sites[i].f[k] + wrap(f[k] - e.sites[i].f[k]);
                for (int x = -h[0]; x <= h[0]; ++x) for (int y = -h[1]; y <= h[1]; ++y) for (int z = -h[2]; z <= h[2]; ++z)
                {
                    V3 t{{g[0] + x, g[1] + y, g[2] + z}};
                    double d = dist(p, mul(M, t));
                    if (d > 1e-4 && d <= rmax) exp.push_back({j, d});
                }
            }
        }
        auto clean = [&](vector<pair<int,double>>& v) {
            v.erase(remove_if(v.begin(), v.end(), [&](const pair<int,double>& q) { return q.second > rmax - 1e-3 || q.second < 1e-2; }), v.end());
            sort(v.begin(), v.end());
        };
        clean(got);
        clean(exp);
        bool ok = got.size() == exp.size();
        // order of equal distances may differ by rounding within one site
        for (size_t k = 0; ok && k < got.size(); ++k) ok = got[k].first == exp[k].first && fabs(got[k].second - exp[k].second) < 1e-5;
        if (!ok) ctx.fail("neighbours", "%s: site %d has %zu neighbours, expected %zu", where.c_str(), i, got.size(), exp.size());
        ctx.count("neighbours");
    }

    StructureAdapterPtr convert(Ext& e, string& exc)
    {
        // caches of the other library are not part of this
        if (e.mol) e.m->GetScatteringComponentList(); else e.c->GetScatteringComponentList();
        StructureAdapterPtr rv;
        if (failat) seam::alloc_arm(failat, nfail);
        try
        {
            if (e.mol) rv = convertToStructureAdapter(*e.m);
            else rv = convertToStructureAdapter(*e.c);
        }
        catch (const bad_alloc&) { seam::g_alloc.armed = false; exc = "bad_alloc"; }
        catch (const exception& x) { seam::g_alloc.armed = false; exc = demangle(typeid(x).name()); }
        if (failat)
        {
            seam::alloc_disarm();
            if (seam::g_alloc.fired) ctx.count("fault.alloc");
        }
        failat = 0;
        return rv;
    }

    static PQPtr newcalc(int k, bool fast)
    {
        PQPtr p;
        switch (k)
        {
            case 0: p.reset(new BondCalculator); p->setRmax(3.1); break;
            case 1: p.reset(new PDFCalculator); p->setDoubleAttr("rmax", 3.5); p->setDoubleAttr("rstep", 0.1); break;
            case 2: p.reset(new BVSCalculator); break;
            default: p.reset(new OverlapCalculator); p->setDoubleAttr("rmax", 3.5); break;
        }
        if (k < 2) p->setEvaluatorType(fast ? OPTIMIZED : BASIC);
        return p;
    }

    void apply(const Op& op)
    {
        where = "operation " + op.str();
        const string& n = op.n;
        if (n == "f") { failat = op.I(0); nfail = op.I(1, 1); return; }
        if (n == "chk")
        {
            Kept& k = kept[op.I(0)];
            if (k.s) { verify(k.s, k.e, true); ctx.count("rechecked"); ctx.count("nontrivial"); }
            return;
        }
        Ext& e = ext[op.I(0)];
        if (n == "new")
        {
            e = Ext();
            const int g = op.I(1);
            e.mol = op.I(2);
            e.c.reset(new OC::Crystal(op.D(0), op.D(1), op.D(2), op.D(3) * M_PI / 180, op.D(4) * M_PI / 180, op.D(5) * M_PI / 180,
                        GROUPS[e.mol ? 0 : g % NGROUP].symbol));
            if (e.mol) { e.m = new OC::Molecule(*e.c, "mol"); e.c->AddScatterer(e.m); }
            return;
        }
        if (!e.c) return;
        const int sz = int(e.sites.size());
        if (n == "pow")
        {
            const int k = op.I(1);
            Pow& p = e.pw[k];
            if (!p.set)
            {
                p.set = true;
                p.symbol = op.S(0);
                p.p = new OC::ScatteringPowerAtom(strprintf("pow%d", k), p.symbol, 1.0);
                e.c->AddScatteringPower(p.p);
            }
            // once anisotropic a power stays so
            if (op.I(2) || p.aniso)
            {
                p.aniso = true;
                static const int ij[6][2] = {{1, 1}, {2, 2}, {3, 3}, {1, 2}, {1, 3}, {2, 3}};
                for (int j = 0; j < 6; ++j) { p.b[j] = op.D(j, 0); p.p->SetBij(ij[j][0], ij[j][1], p.b[j]); }
            }
            else { p.b[0] = op.D(0); p.p->SetBiso(p.b[0]); }
        }
        else if (n == "add")
        {
            Site s;
            for (int j = 0; j < 3; ++j) s.x[j] = op.D(j);
            s.occ = op.D(3);
            s.pow = op.I(1) >= 0 && e.pw[op.I(1)].set ? op.I(1) : -1;
            const OC::ScatteringPower* p = s.pow < 0 ? nullptr : e.pw[s.pow].p;
            string nm = strprintf("at%ld", ctx.cnt["atoms"]);
            ctx.count("atoms");
            if (e.mol)
            {
                e.m->AddAtom(s.x[0], s.x[1], s.x[2], p, nm, false);
                e.m->GetAtomList().back()->SetOccupancy(s.occ);
            }
            else
            {
                s.a = new OC::Atom(s.x[0], s.x[1], s.x[2], nm, p, s.occ);
                e.c->AddScatterer(s.a);
            }
            e.sites.push_back(s);
        }
        else if (n == "del" && sz)
        {
            const int k = op.I(1) % sz;
            if (e.mol) e.m->RemoveAtom(*e.m->GetAtomList()[k]);
            else
            {
                // the crystal notes a removal with the next change of an atom
                int other = -1;
                for (int j = 0; j < sz; ++j) if (j != k && e.sites[j].pow >= 0) other = j;
                if (other < 0) return;
                e.c->RemoveScatterer(e.sites[k].a);
                e.sites[other].a->SetX(e.sites[other].a->GetX() + 0.0625);
            }
            e.sites.erase(e.sites.begin() + k);
        }
        else if ((n == "mov" || n == "occ") && sz)
        {
            const int k = op.I(1) % sz;
            Site& s = e.sites[k];
            // dummy atoms of crystals have no parameters
            if (!e.mol && s.pow < 0) return;
            if (n == "mov")
            {
                for (int j = 0; j < 3; ++j) s.x[j] = op.D(j);
                if (e.mol) { auto* a = e.m->GetAtomList()[k]; a->SetX(s.x[0]); a->SetY(s.x[1]); a->SetZ(s.x[2]); }
                else { s.a->SetX(s.x[0]); s.a->SetY(s.x[1]); s.a->SetZ(s.x[2]); }
            }
            else
            {
                s.occ = op.D(0);
                if (e.mol) e.m->GetAtomList()[k]->SetOccupancy(s.occ);
                else s.a->SetOccupancy(s.occ);
            }
        }
        else if (n == "lat" || n == "sg")
        {
            if (e.mol) return;
            if (n == "sg") e.c->ChangeSpaceGroup(GROUPS[op.I(1) % NGROUP].symbol);
            static const char* nm[] = {"a", "b", "c", "alpha", "beta", "gamma"};
            for (int j = 0; j < 6; ++j)
                e.c->GetPar(nm[j]).SetValue(op.D(j) * (j < 3 ? 1 : M_PI / 180));
        }
        else if (n == "conv")
        {
            Expected x = expected(e);
            string exc;
            const bool faulty = failat;
            StructureAdapterPtr s = convert(e, exc);
            if (!exc.empty())
            {
                if (!faulty || exc != "bad_alloc") ctx.fail("conversion-failed", "%s: %s", where.c_str(), exc.c_str());
                s = convert(e, exc = "");
                if (!s) ctx.fail("conversion-failed", "%s: repeated: %s", where.c_str(), exc.c_str());
            }
            verify(s, x, true);
            kept[op.I(1)] = Kept{s, x};
            ctx.feat(strprintf("conv%d/%zu/%d", x.mol, x.sites.size(), x.nops));
        }
        else if (n == "eval")
        {
            const int c = op.I(1) % NCALC;
            if (!calc[c]) calc[c] = newcalc(c, true);
            PQPtr fresh = newcalc(c, false);
            Expected x = expected(e);
            // in special positions displacements have to obey symmetry, or
            // the two directions of a pair differ
            for (auto& t : x.sites) if (t.unclear || (t.special && t.aniso)) return;
            auto go = [&](PQPtr p) {
                string rv;
                try { if (e.mol) p->eval(*e.m); else p->eval(*e.c); }
                catch (const exception& t) { rv = demangle(typeid(t).name()); }
                return rv;
            };
            string ea = go(calc[c]), eb = go(fresh);
            if (ea != eb) ctx.fail("reused-calculator", "%s: '%s', fresh '%s'", where.c_str(), ea.c_str(), eb.c_str());
            if (!ea.empty()) { calc[c].reset(); return; }
            verify(calc[c]->getStructure(), x, false);
            QuantityType p = calc[c]->value(), q = fresh->value();
            double sc = 0;
            for (double t : q) sc = max(sc, fabs(t));
            bool ok = p.size() == q.size();
            for (size_t k = 0; ok && k < p.size(); ++k) ok = fabs(p[k] - q[k]) <= 1e-8 * (1 + sc) || (std::isnan(p[k]) && std::isnan(q[k]));
            if (!ok) ctx.fail("reused-calculator", "%s: result differs from fresh calculator", where.c_str());
            ctx.count("evaluations");
            ctx.count("nontrivial");
        }
    }
};

static Scenario gen(uint64_t seed, bool thorough)
{
    Rng r(seed ^ 0xc17);
    Scenario sc;
    sc.prop = "C17";
    sc.seed = seed;
    auto add = [&](const string& n, vector<long> i, vector<double> d = {}, vector<string> s = {}) { sc.ops.push_back(Op(n, i, d, s)); };
    auto cell = [&](int g) {
        double a = r.uni(3.5, 8), b = r.uni(3.5, 8), c = r.uni(3.5, 8);
        vector<double> v = {a, b, c, 90, 90, 90};
        switch (GROUPS[g].family)
        {
            case 0: for (int k = 3; k < 6; ++k) v[k] = r.uni(75, 105); break;
            case 1: v[4] = r.uni(85, 115); break;
            case 2: break;
            case 3: v[1] = a; break;
            case 4: v[1] = a; v[5] = 120; break;
            case 6: v[1] = v[2] = a; v[3] = v[4] = v[5] = r.uni(75, 105); break;
            case 7: v[5] = r.uni(85, 115); break;
            default: v[1] = v[2] = a; break;
        }
        return v;
    };
    static const vector<string> symbols = {"Na1+", "Cl1-", "Si4+", "O2-", "Ni", "C"};
    const bool heavy = r.chance(0.25);
    const auto kin = r.chance(0.25) ? r.pick(KIN) : vector<const char*>();
    auto group = [&]() -> int {
        if (kin.size() && r.chance(0.7))
        {
            const string w = r.pick(kin);
            for (int g = 0; g < NGROUP; ++g) if (w == GROUPS[g].symbol) return g;
        }
        int g;
        do g = r.below(NGROUP); while (!heavy && GROUPS[g].family == 5 && r.chance(0.7));
        return g;
    };
    vector<int> sg(NSLOT, 0);
    vector<char> mol(NSLOT, 0);
    const double pspecial = r.pick(vector<double>{0, 0.3, 0.7});
    auto coord = [&](int s) {
        if (mol[s]) return r.uni(-4, 4);
        if (!r.chance(pspecial)) return r.uni(-1, 2);
        return r.pick(vector<double>{0, 0, 0.5, 0.25, 0.75, 1. / 3, 2. / 3, 0.125, -0.25, 1.});
    };
    auto xyz = [&](int s) {
        vector<double> v = {coord(s), coord(s), coord(s)};
        if (!mol[s] && r.chance(pspecial * 0.5)) { v[1] = v[0]; if (r.chance(0.5)) v[2] = v[0]; else if (r.chance(0.3)) v[1] = 2 * v[0]; }
        return v;
    };
    auto power = [&](int s, int k) {
        double u = r.uni(0.2, 2);
        vector<double> d = {u, u * r.uni(0.7, 1.3), u * r.uni(0.7, 1.3), u * r.uni(-0.2, 0.2), u * r.uni(-0.2, 0.2), u * r.uni(-0.2, 0.2)};
        add("pow", {s, k, r.chance(0.4)}, d, {r.pick(symbols)});
    };
    auto atom = [&](int s) {
        vector<double> d = xyz(s);
        d.push_back(r.chance(0.6) ? 1 : r.chance(0.2) ? 0 : r.uni(0, 1));
        add("add", {s, r.chance(0.08) ? -1 : r.below(NPOW)}, d);
    };
    auto make = [&](int s) {
        sg[s] = group();
        mol[s] = r.chance(0.2);
        add("new", {s, sg[s], mol[s]}, cell(sg[s]));
        const int np = r.range(1, NPOW);
        for (int k = 0; k < np; ++k) power(s, k);
        for (int k = r.range(0, mol[s] ? 8 : 4); k >= 0; --k) atom(s);
    };
    const int ns = r.range(1, 2);
    for (int s = 0; s < ns; ++s) make(s);
    const double pf = r.chance(0.5) ? 0 : 0.4;
    const int nst = thorough ? r.range(10, 60) : r.range(6, 25);
    for (int k = 0; k < nst; ++k)
    {
        const int s = r.below(ns);
        switch (r.weighted({5, 3, 2, 2, 0.3}))
        {
            case 0:
                switch (r.weighted({3, 2, 1, 1.5, 1.5, 1, 0.7}))
                {
                    case 0: add("mov", {s, r.below(12)}, xyz(s)); break;
                    case 1: add("occ", {s, r.below(12)}, {r.chance(0.2) ? r.below(2) : r.uni()}); break;
                    case 2: add("del", {s, r.below(12)}); break;
                    case 3: atom(s); break;
                    case 4: power(s, r.below(NPOW)); break;
                    case 5: add("lat", {s}, cell(sg[s])); break;
                    default: sg[s] = group(); add("sg", {s, sg[s]}, cell(sg[s])); break;
                }
                break;
            case 1:
                if (r.chance(pf)) add("f", {long(exp(r.uni(0, log(300.)))), r.pick(vector<int>{1, 1, 3, 1000000})});
                add("conv", {s, r.below(NKEEP)});
                break;
            case 2: add("chk", {r.below(NKEEP)}); break;
            case 3: add("eval", {s, r.below(NCALC), 1}); break;
            default: make(s); break;
        }
    }
    for (int k = 0; k < NKEEP; ++k) add("chk", {k});
    return sc;
}

static void quiet(const string&) { }

static void run(const Scenario& sc, Ctx& ctx)
{
    OC::fpObjCrystInformUser = quiet;
    OC::ObjCrystException::verbose = false;
    T17 t(ctx);
    for (auto& op : sc.ops)
    {
        if (op.n != "f" && op.n != "chk" && (op.I(0) < 0 || op.I(0) >= NSLOT)) continue;
        t.apply(op);
        ctx.log("%s", op.str().c_str());
    }
    // adapters outlive the external objects
    for (auto& e : t.ext) e = Ext();
    for (int k = 0; k < NKEEP; ++k) t.apply(Op("chk", {k}));
}

static Register reg(Property{"C17", gen, run, preloadTables});

}   // namespace sim
