// C11: structures after interleaved edits, copies, wrapping, failures and
// restarts against structures built afresh from a plain model of the content.
#include "world.hpp"
#include <cmath>
#include <algorithm>
namespace sim {
using namespace std;

// new i=slot,kind,src d=lattice   kind 0 atoms, 1 periodic, 2 crystal, 3 user, 4 nometa,
//                                 5 nosymmetry of src, 6 empty, 7 nometa constructor, 8 nosymmetry constructor
// copy i=slot,src  alias i=slot,src  drop i=slot
// conv i=slot,src,kind            structure of another kind with the same atoms
// assign i=slot,src               content by operator=, of the atoms only for different kinds
// add i=slot,pos,aniso,how d=.. s=type     addn i=slot,pos,src,first,n
// del i=slot,pos,how  deln i=slot,first,n  clear i=slot  asg i=slot,n,how
// mov i=slot,k,how d=xyz  set i=slot,k d=xyz  type i=slot,k s=type  occ i=slot,k d=o  uij i=slot,k,aniso d=..
// swap i=slot,k,l  rot i=slot,k  lat i=slot d=lp  latmod i=slot,k,mode d=x
// group i=slot,g  symop i=slot,k  symclr i=slot  prec i=slot d=eps  cfg i=slot d=v s=name
// f i=at,n                        allocation failure in the next query, copy or comparison
// q i=slot,what,k                 one query
// diff i=a,b
// save i=k, load i=k              snapshot of all structures, restart from it
// bnew i=g,slot bset i=g,what,x d=r bstep i=g,n blist i=g
// check

namespace {

const int NSLOT = 8, NGEN = 3, NSAVE = 2;

struct MS
{
    int kind = 0;
    vector<Atom> at;
    double lp[6] = {1, 1, 1, 90, 90, 90};
    vector<SymOpRotTrans> ops;
    bool group = true;          // operations make a group that fits the lattice
    double prec = 5e-5;
    map<string,double> cfg;
    int src = -1;
    long ver = 0;
    bool periodic() const { return kind >= 1 && kind <= 3; }
};

struct Bond { int s1; double d; R3::Vector r0, r1, r01; R3::Matrix u0, u1; int m; double msd; };

struct GenCfg
{
    double rmin = 0, rmax = 0;
    bool rmaxset = false;
    int anchor = 0;
    int sel = 0;                // 0 all, 1 range, 2 list
    int first = 0, last = 0;
    vector<int> sites;
};

struct BGen
{
    BaseBondGeneratorPtr g;
    StructureAdapterPtr fresh;  // the content at its creation
    int leaf = -1;
    long ver = 0;
    GenCfg c;
    vector<int> keep;           // sites selected by iterators
    bool partial = false;
};

bool same(const Atom& a, const Atom& b)
{
    if (a.atomtype != b.atomtype || a.occupancy != b.occupancy || bool(a.anisotropy) != bool(b.anisotropy)) return false;
    for (int i = 0; i < 3; ++i)
    {
        if (a.xyz_cartn[i] != b.xyz_cartn[i]) return false;
        for (int j = 0; j < 3; ++j) if (a.uij_cartn(i, j) != b.uij_cartn(i, j)) return false;
    }
    return true;
}

bool sameop(const SymOpRotTrans& a, const SymOpRotTrans& b)
{
    for (int i = 0; i < 3; ++i)
    {
        if (a.t[i] != b.t[i]) return false;
        for (int j = 0; j < 3; ++j) if (a.R(i, j) != b.R(i, j)) return false;
    }
    return true;
}

bool near(double a, double b, double tol = 1e-9) { return a == b || (a != a && b != b) || fabs(a - b) <= tol * max(1.0, max(fabs(a), fabs(b))); }
bool near(const R3::Vector& a, const R3::Vector& b) { return near(a[0], b[0]) && near(a[1], b[1]) && near(a[2], b[2]); }
bool near(const R3::Matrix& a, const R3::Matrix& b)
{
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (!near(a(i, j), b(i, j))) return false;
    return true;
}
bool near(const Bond& a, const Bond& b)
{
    return a.s1 == b.s1 && near(a.d, b.d) && near(a.r0, b.r0) && near(a.r1, b.r1) && near(a.r01, b.r01) &&
        near(a.u0, b.u0) && near(a.u1, b.u1) && a.m == b.m && near(a.msd, b.msd);
}

// index of the first bond in a that is missing in b or -1
int missing(const vector<Bond>& a, const vector<Bond>& b)
{
    vector<char> used(b.size());
    for (size_t k = 0; k < a.size(); ++k)
    {
        bool ok = false;
        for (size_t l = 0; l < b.size() && !ok; ++l)
        {
            size_t m = (k + l) % b.size();
            if (!used[m] && near(a[k], b[m])) ok = used[m] = true;
        }
        if (!ok) return int(k);
    }
    return -1;
}

Atom atomOf(const Op& op, long aniso, size_t d0)
{
    Atom a;
    a.atomtype = op.S(0);
    a.anisotropy = aniso;
    a.xyz_cartn = R3::Vector(op.D(0), op.D(1), op.D(2));
    a.occupancy = op.D(3, 1.0);
    a.uij_cartn = R3::zeromatrix();
    for (int i = 0; i < 3; ++i) a.uij_cartn(i, i) = op.D(d0 + (aniso ? i : 0));
    if (aniso)
        for (int i = 0; i < 3; ++i) a.uij_cartn(i, (i + 1) % 3) = a.uij_cartn((i + 1) % 3, i) = op.D(d0 + 3 + i, 0.0);
    return a;
}

SymOpRotTrans symop(int k)
{
    SymOpRotTrans op;
    op.R = R3::identity();
    op.t = R3::Vector(0, 0, 0);
    if (k & 1) op.R(0, 0) = -1;
    if (k & 2) op.R(1, 1) = -1;
    if (k & 4) op.R(2, 2) = -1;
    if (k & 8) op.t = R3::Vector(0.5, 0.5, 0.5);
    if (k & 16) op.t += R3::Vector(0.5, 0, 0);
    if (k & 32) { op.R = R3::zeromatrix(); op.R(0, 1) = op.R(1, 0) = 1; op.R(2, 2) = -1; }
    return op;
}

vector<SymOpRotTrans> groupOps(int g)
{
    static const vector<vector<int>> G = {{0}, {0, 7}, {0, 3}, {0, 8}, {0, 16}, {0, 3, 7, 4}, {0, 7, 8, 15}, {0, 1, 2, 4, 3, 5, 6, 7}};
    vector<SymOpRotTrans> rv;
    for (int k : G[((g % 8) + 8) % 8]) rv.push_back(symop(k));
    return rv;
}
// does the group fit skewed cells as well
bool anycell(int g) { g = ((g % 8) + 8) % 8; return g == 0 || g == 1 || g == 3 || g == 4 || g == 6; }

struct T11
{
    Ctx& ctx;
    vector<MS> obj;
    vector<StructureAdapterPtr> real;
    vector<int> slot;
    vector<BGen> bg;
    string snap[NSAVE];
    vector<MS> sobj[NSAVE];
    vector<int> sslot[NSAVE];
    long failat = 0, nfail = 0;
    Rng aux;
    PDFCalculator pc;

    T11(Ctx& c, uint64_t seed) : ctx(c), slot(NSLOT, -1), bg(NGEN), aux(seed) { }

    bool has(long s) const { return s >= 0 && s < NSLOT && slot[s] >= 0; }
    int leafOf(int id) const { while (obj[id].kind == 4 || obj[id].kind == 5) id = obj[id].src; return id; }

    int add(const MS& m, StructureAdapterPtr r)
    {
        // the empty structure may be shared
        for (size_t k = 0; k < real.size(); ++k) if (real[k] == r) return int(k);
        obj.push_back(m);
        real.push_back(r);
        return int(obj.size()) - 1;
    }

    // --- structure built from the model ---------------------------------------
    StructureAdapterPtr fresh(int id, map<int, StructureAdapterPtr>& memo, const vector<MS>& ob) const
    {
        auto it = memo.find(id);
        if (it != memo.end()) return it->second;
        const MS& m = ob[id];
        StructureAdapterPtr rv;
        switch (m.kind)
        {
            case 0: rv.reset(new AtomicStructureAdapter); break;
            case 1: rv.reset(new PeriodicStructureAdapter); break;
            case 2: rv.reset(new CrystalStructureAdapter); break;
            case 3: rv.reset(new SimPeriodic); break;
            case 4: rv.reset(new NoMetaStructureAdapter(fresh(m.src, memo, ob))); break;
            case 5: rv.reset(new NoSymmetryStructureAdapter(fresh(m.src, memo, ob))); break;
            default: rv = emptyStructureAdapter();
        }
        if (m.kind <= 3)
        {
            auto* a = static_cast<AtomicStructureAdapter*>(rv.get());
            if (m.periodic()) static_cast<PeriodicStructureAdapter*>(a)->setLatPar(m.lp[0], m.lp[1], m.lp[2], m.lp[3], m.lp[4], m.lp[5]);
            for (auto& x : m.at) a->append(x);
            if (m.kind == 2)
            {
                auto* c = static_cast<CrystalStructureAdapter*>(a);
                for (auto& o : m.ops) c->addSymOp(o);
                c->setSymmetryPrecision(m.prec);
            }
            if (m.kind == 3) static_cast<SimPeriodic*>(a)->cfg = m.cfg;
        }
        memo[id] = rv;
        return rv;
    }
    StructureAdapterPtr fresh(int id) const { map<int, StructureAdapterPtr> memo; return fresh(id, memo, obj); }

    // --- queries ---------------------------------------------------------------
    static void configure(BaseBondGenerator& g, const GenCfg& c, int nsites, const vector<int>* keep)
    {
        if (c.rmaxset) g.setRmax(c.rmax);
        g.setRmin(c.rmin);
        if (nsites) g.selectAnchorSite(c.anchor);
        if (c.sel == 1) g.selectSiteRange(c.first, c.last);
        if (c.sel == 2) g.selectSites(c.sites);
    }

    static vector<Bond> bonds(BaseBondGenerator& g, long maxn = -1)
    {
        vector<Bond> rv;
        for (g.rewind(); !g.finished(); g.next())
        {
            if (maxn >= 0 && long(rv.size()) >= maxn) break;
            Bond b;
            b.s1 = g.site1();
            b.d = g.distance();
            b.r0 = g.r0(); b.r1 = g.r1(); b.r01 = g.r01();
            b.u0 = g.Ucartesian0(); b.u1 = g.Ucartesian1();
            b.m = g.multiplicity();
            b.msd = 0;
            rv.push_back(b);
        }
        return rv;
    }

    // mean square displacement of the current bond, where it is defined
    static double msdOf(BaseBondGenerator& g, const StructureAdapter& s)
    {
        auto iso = [](const R3::Matrix& u) { return fabs(u(0, 0) - u(1, 1)) < 1e-10 && fabs(u(0, 0) - u(2, 2)) < 1e-10; };
        auto sym = [](const R3::Matrix& u) { return fabs(u(0, 1) - u(1, 0)) < 1e-10 && fabs(u(0, 2) - u(2, 0)) < 1e-10 && fabs(u(1, 2) - u(2, 1)) < 1e-10; };
        R3::Matrix u0 = g.Ucartesian0(), u1 = g.Ucartesian1();
        if (!(s.siteAnisotropy(g.site0()) ? sym(u0) : iso(u0))) return -1;
        if (!(s.siteAnisotropy(g.site1()) ? sym(u1) : iso(u1))) return -1;
        return g.msd();
    }

    vector<Bond> neighbours(const StructureAdapterPtr& s, const GenCfg& c)
    {
        BaseBondGeneratorPtr g = s->createBondGenerator();
        configure(*g, c, s->countSites(), 0);
        vector<Bond> rv;
        for (g->rewind(); !g->finished(); g->next())
        {
            Bond b;
            b.s1 = g->site1();
            b.d = g->distance();
            b.r0 = g->r0(); b.r1 = g->r1(); b.r01 = g->r01();
            b.u0 = g->Ucartesian0(); b.u1 = g->Ucartesian1();
            b.m = g->multiplicity();
            b.msd = msdOf(*g, *s);
            rv.push_back(b);
        }
        return rv;
    }

    void compareBonds(const vector<Bond>& got, const vector<Bond>& want, const char* what, const string& where)
    {
        int k = missing(got, want);
        if (k >= 0)
            ctx.fail(string("neighbours:") + what, "%s: bond %d to site %d distance %.10g U1 %.6g msd %.6g, one of %zu, is not in the fresh structure, which has %zu",
                    where.c_str(), k, got[k].s1, got[k].d, got[k].u1(0, 0), got[k].msd, got.size(), want.size());
        k = missing(want, got);
        if (k >= 0)
            ctx.fail(string("neighbours:") + what, "%s: bond to site %d distance %.10g U1 %.6g msd %.6g is missing, %zu found, fresh structure has %zu",
                    where.c_str(), want[k].s1, want[k].d, want[k].u1(0, 0), want[k].msd, got.size(), want.size());
        ctx.count("bonds", long(got.size()));
    }

    // --- plain computation of multiplicities and neighbours ----------------------
    struct Plain { bool ok = true; vector<vector<R3::Vector>> eq; R3::Matrix base; double tol = 1e-7; double vol = 0; bool per = false; };

    Plain plain(int id) const
    {
        Plain p;
        const int lf = leafOf(id);
        const MS& m = obj[lf];
        bool nosym = false;
        for (int k = id; obj[k].kind == 4 || obj[k].kind == 5; k = obj[k].src) nosym |= obj[k].kind == 5;
        const bool per = m.periodic() && !nosym;
        p.per = per;
        p.eq.resize(m.at.size());
        if (!per)
        {
            for (size_t i = 0; i < m.at.size(); ++i) p.eq[i].push_back(m.at[i].xyz_cartn);
            return p;
        }
        const double rad = M_PI / 180;
        const double ca = cos(m.lp[3] * rad), cb = cos(m.lp[4] * rad), cg = cos(m.lp[5] * rad);
        p.vol = m.lp[0] * m.lp[1] * m.lp[2] * sqrt(1 + 2 * ca * cb * cg - ca * ca - cb * cb - cg * cg);
        // orientation of the cell is a matter of convention
        Lattice L(m.lp[0], m.lp[1], m.lp[2], m.lp[3], m.lp[4], m.lp[5]);
        p.base = L.base();
        const R3::Matrix inv = R3::inverse(p.base);
        for (size_t i = 0; i < m.at.size(); ++i)
        {
            const Atom& a = m.at[i];
            R3::Vector f = R3::mxvecproduct(a.xyz_cartn, inv);
            vector<SymOpRotTrans> ops = m.kind == 2 ? m.ops : vector<SymOpRotTrans>();
            if (ops.empty()) ops.push_back(symop(0));
            if (m.kind == 2 && !m.group) { p.ok = false; return p; }
            vector<R3::Vector> fr, sum;
            vector<int> cnt;
            for (auto& o : ops)
            {
                R3::Vector x = R3::mxvecproduct(o.R, f);
                x += o.t;
                size_t k = 0;
                R3::Vector d;
                for (; k < fr.size(); ++k)
                {
                    d = x - fr[k];
                    for (int j = 0; j < 3; ++j) d[j] -= round(d[j]);
                    double r = R3::norm(R3::mxvecproduct(d, p.base));
                    if (r > 0.2 * m.prec && r < 5 * m.prec) { p.ok = false; return p; }
                    if (r <= m.prec) break;
                }
                if (k == fr.size()) { fr.push_back(x); sum.push_back(x); cnt.push_back(1); }
                else { sum[k] += fr[k]; sum[k] += d; cnt[k] += 1; p.tol = max(p.tol, m.prec); }
            }
            for (size_t k = 0; k < fr.size(); ++k)
            {
                R3::Vector x = sum[k] / double(cnt[k]);
                for (int j = 0; j < 3; ++j) x[j] -= floor(x[j]);
                p.eq[i].push_back(R3::mxvecproduct(x, p.base));
            }
        }
        return p;
    }

    // distances to each site
    vector<pair<int,double>> plainBonds(const Plain& p, int anchor, double rmin, double rmax) const
    {
        vector<pair<int,double>> rv;
        const R3::Vector& x0 = p.eq[anchor][0];
        int n[3] = {0, 0, 0};
        if (p.per)
        {
            const R3::Matrix inv = R3::inverse(p.base);
            // plane spacing is the inverse length of the reciprocal vector
            for (int k = 0; k < 3; ++k)
            {
                R3::Vector c = R3::column(inv, k);
                n[k] = int(ceil(rmax * R3::norm(c))) + 1;
            }
        }
        for (size_t j = 0; j < p.eq.size(); ++j)
            for (auto& y : p.eq[j])
                for (int a = -n[0]; a <= n[0]; ++a) for (int b = -n[1]; b <= n[1]; ++b) for (int c = -n[2]; c <= n[2]; ++c)
                {
                    R3::Vector d = y - x0;
                    if (p.per) d += R3::mxvecproduct(R3::Vector(a, b, c), p.base);
                    double r = R3::norm(d);
                    if (r >= rmin && r <= rmax) rv.push_back(make_pair(int(j), r));
                }
        return rv;
    }

    // --- checks ------------------------------------------------------------------
    void checkSite(int id, const StructureAdapter& s, const StructureAdapter& f, int i, const string& w)
    {
        const Atom& a = obj[leafOf(id)].at[i];
        if (s.siteAtomType(i) != a.atomtype) ctx.fail("site:type", "%s site %d: type %s, expected %s", w.c_str(), i, s.siteAtomType(i).c_str(), a.atomtype.c_str());
        for (int k = 0; k < 3; ++k)
            if (s.siteCartesianPosition(i)[k] != a.xyz_cartn[k])
                ctx.fail("site:position", "%s site %d: coordinate %d is %.17g, expected %.17g", w.c_str(), i, k, s.siteCartesianPosition(i)[k], a.xyz_cartn[k]);
        if (s.siteOccupancy(i) != a.occupancy) ctx.fail("site:occupancy", "%s site %d: %.17g, expected %.17g", w.c_str(), i, s.siteOccupancy(i), a.occupancy);
        if (s.siteAnisotropy(i) != bool(a.anisotropy)) ctx.fail("site:anisotropy", "%s site %d", w.c_str(), i);
        for (int k = 0; k < 9; ++k)
            if (s.siteCartesianUij(i)(k / 3, k % 3) != a.uij_cartn(k / 3, k % 3))
                ctx.fail("site:uij", "%s site %d: element %d is %.17g, expected %.17g", w.c_str(), i, k, s.siteCartesianUij(i)(k / 3, k % 3), a.uij_cartn(k / 3, k % 3));
        int mult = s.siteMultiplicity(i);
        if (mult != f.siteMultiplicity(i))
            ctx.fail("site:multiplicity", "%s site %d: %d, fresh structure has %d", w.c_str(), i, mult, f.siteMultiplicity(i));
    }

    void checkCrystal(const CrystalStructureAdapter& s, const MS& m, const CrystalStructureAdapter& f, const string& w)
    {
        if (s.countSymOps() != int(m.ops.size())) ctx.fail("symops", "%s: %d operations, expected %zu", w.c_str(), s.countSymOps(), m.ops.size());
        for (size_t k = 0; k < m.ops.size(); ++k)
            if (!sameop(s.getSymOp(int(k)), m.ops[k])) ctx.fail("symops", "%s: operation %zu differs", w.c_str(), k);
        if (s.getSymmetryPrecision() != m.prec) ctx.fail("precision", "%s: %g, expected %g", w.c_str(), s.getSymmetryPrecision(), m.prec);
    }

    void checkEq(const CrystalStructureAdapter& s, const CrystalStructureAdapter& f, int i, const string& w)
    {
        const auto& a = s.getEquivalentAtoms(i);
        const auto& b = f.getEquivalentAtoms(i);
        if (a.size() != b.size()) ctx.fail("equivalent", "%s site %d: %zu equivalent atoms, fresh structure has %zu", w.c_str(), i, a.size(), b.size());
        for (size_t k = 0; k < a.size(); ++k)
            if (a[k].atomtype != b[k].atomtype || !near(a[k].xyz_cartn, b[k].xyz_cartn) || !near(a[k].uij_cartn, b[k].uij_cartn) ||
                    a[k].occupancy != b[k].occupancy || bool(a[k].anisotropy) != bool(b[k].anisotropy))
                ctx.fail("equivalent", "%s site %d: atom %zu %s at %g %g %g differs from the fresh one at %g %g %g", w.c_str(), i, k, a[k].atomtype.c_str(),
                        a[k].xyz_cartn[0], a[k].xyz_cartn[1], a[k].xyz_cartn[2], b[k].xyz_cartn[0], b[k].xyz_cartn[1], b[k].xyz_cartn[2]);
    }

    void checkAgainstPlain(int id, const StructureAdapterPtr& s, const string& w)
    {
        Plain p = plain(id);
        if (!p.ok) return;
        const MS& m = obj[leafOf(id)];
        const int n = int(m.at.size());
        double occ = 0;
        for (int i = 0; i < n; ++i)
        {
            if (s->siteMultiplicity(i) != int(p.eq[i].size()))
                ctx.fail("definition:multiplicity", "%s site %d: %d, expected %zu", w.c_str(), i, s->siteMultiplicity(i), p.eq[i].size());
            occ += m.at[i].occupancy * double(p.eq[i].size());
        }
        if (!near(s->totalOccupancy(), occ)) ctx.fail("definition:total-occupancy", "%s: %.12g, expected %.12g", w.c_str(), s->totalOccupancy(), occ);
        const double rho = p.per ? occ / p.vol : 0.0;
        if (!near(s->numberDensity(), rho)) ctx.fail("definition:density", "%s: %.12g, expected %.12g", w.c_str(), s->numberDensity(), rho);
        if (!n) return;
        const int i = aux.below(n);
        const double rmax = aux.uni(1.5, 4.5), rmin = aux.chance(0.7) ? 0.0 : aux.uni(0, 3);
        GenCfg c;
        c.rmin = rmin; c.rmax = rmax; c.rmaxset = true; c.anchor = i;
        BaseBondGeneratorPtr g = s->createBondGenerator();
        configure(*g, c, n, 0);
        vector<pair<int,double>> got, want = plainBonds(p, i, rmin, rmax), x;
        for (auto& b : bonds(*g)) got.push_back(make_pair(b.s1, b.d));
        // leave out the distances close to a limit
        const double tol = 3 * p.tol;
        auto clean = [&](vector<pair<int,double>>& v) {
            vector<pair<int,double>> rv;
            for (auto& q : v) if (q.second > tol && fabs(q.second - rmin) > tol && fabs(q.second - rmax) > tol) rv.push_back(q);
            sort(rv.begin(), rv.end());
            v = rv;
        };
        clean(got);
        clean(want);
        bool ok = got.size() == want.size();
        for (size_t k = 0; ok && k < got.size(); ++k)
            ok = got[k].first == want[k].first && fabs(got[k].second - want[k].second) <= tol;
        if (!ok)
        {
            string t;
            for (auto& q : got) t += strprintf(" %d:%.6f", q.first, q.second);
            t += " expected";
            for (auto& q : want) t += strprintf(" %d:%.6f", q.first, q.second);
            ctx.fail("definition:neighbours", "%s site %d range %g to %g: found%s", w.c_str(), i, rmin, rmax, t.substr(0, 400).c_str());
        }
        ctx.count("plain-checks");
    }

    GenCfg randomCfg(int n)
    {
        GenCfg c;
        c.rmin = aux.chance(0.6) ? 0.0 : aux.uni(0, 2.5);
        c.rmax = aux.uni(1.5, 4);
        c.rmaxset = true;
        c.anchor = aux.below(n);
        return c;
    }

    void checkAll(int id, const string& w, bool full = true)
    {
        const StructureAdapterPtr s = real[id];
        const StructureAdapterPtr f = fresh(id);
        const MS& m = obj[leafOf(id)];
        const int n = int(m.at.size());
        if (s->countSites() != n) ctx.fail("sites", "%s: %d sites, expected %d", w.c_str(), s->countSites(), n);
        // the order of queries decides when the caches are made
        const int order = aux.below(4);
        auto sites = [&]() {
            int k0 = n ? aux.below(n) : 0;
            for (int k = 0; k < n; ++k) checkSite(id, *s, *f, (k0 + k) % n, w);
        };
        auto sums = [&]() {
            if (!near(s->totalOccupancy(), f->totalOccupancy())) ctx.fail("total-occupancy", "%s: %.12g, fresh structure has %.12g", w.c_str(), s->totalOccupancy(), f->totalOccupancy());
            if (!near(s->numberDensity(), f->numberDensity())) ctx.fail("density", "%s: %.12g, fresh structure has %.12g", w.c_str(), s->numberDensity(), f->numberDensity());
            if (!near(maxUii(s), maxUii(f))) ctx.fail("max-uii", "%s: %.12g, fresh structure has %.12g", w.c_str(), maxUii(s), maxUii(f));
        };
        auto nbs = [&]() {
            if (!n) return;
            GenCfg c = randomCfg(n);
            compareBonds(neighbours(s, c), neighbours(f, c), "structure", w);
        };
        if (order == 0) { sites(); sums(); nbs(); }
        if (order == 1) { nbs(); sites(); sums(); }
        if (order == 2) { sums(); nbs(); sites(); }
        if (order == 3) { sums(); sites(); nbs(); }
        if (auto per = dynamic_cast<PeriodicStructureAdapter*>(s.get()))
        {
            const Lattice& L = per->getLattice();
            const double x[6] = {L.a(), L.b(), L.c(), L.alpha(), L.beta(), L.gamma()};
            for (int k = 0; k < 6; ++k) if (!near(x[k], m.lp[k])) ctx.fail("lattice", "%s: parameter %d is %.12g, expected %.12g", w.c_str(), k, x[k], m.lp[k]);
        }
        if (auto cr = dynamic_cast<CrystalStructureAdapter*>(s.get()))
        {
            auto cf = dynamic_cast<CrystalStructureAdapter*>(f.get());
            checkCrystal(*cr, m, *cf, w);
            for (int k = n; k-- > 0; ) checkEq(*cr, *cf, k, w);
        }
        // configuration of calculators by structures
        {
            bool off = false;
            for (int k = id; obj[k].kind == 4 || obj[k].kind == 5; k = obj[k].src) off |= obj[k].kind == 4;
            const double dflt = 0.625;
            for (const char* nm : {"scale", "qdamp"}) pc.setDoubleAttr(nm, dflt);
            s->customPQConfig(&pc);
            for (const char* nm : {"scale", "qdamp"})
            {
                auto it = m.cfg.find(nm);
                double want = !off && m.kind == 3 && it != m.cfg.end() ? it->second : dflt;
                if (pc.getDoubleAttr(nm) != want) ctx.fail("config", "%s: %s configured to %g, expected %g", w.c_str(), nm, pc.getDoubleAttr(nm), want);
            }
        }
        if (full) checkAgainstPlain(id, s, w);
        // wrappers keep their source
        if (obj[id].kind == 4 || obj[id].kind == 5)
        {
            StructureAdapterPtr src;
            if (auto x = boost::dynamic_pointer_cast<NoMetaStructureAdapter>(s)) src = x->getSourceStructure();
            if (auto x = boost::dynamic_pointer_cast<NoSymmetryStructureAdapter>(s)) src = x->getSourceStructure();
            if (src != real[obj[id].src]) ctx.fail("wrapper:source", "%s: not the wrapped structure", w.c_str());
        }
        ctx.count("checked");
    }

    // wrappers of both that differences can go through
    bool comparable(int a, int b) const
    {
        if (a == b) return true;
        const MS& x = obj[a];
        const MS& y = obj[b];
        if (x.kind != y.kind || x.kind == 6) return false;
        if (x.kind == 4 || x.kind == 5) return comparable(x.src, y.src);
        if (x.periodic()) for (int k = 0; k < 6; ++k) if (x.lp[k] != y.lp[k]) return false;
        if (x.kind == 2)
        {
            if (x.prec != y.prec || x.ops.size() != y.ops.size()) return false;
            for (size_t k = 0; k < x.ops.size(); ++k) if (!sameop(x.ops[k], y.ops[k])) return false;
        }
        return true;
    }

    void checkDiff(int a, int b, const StructureDifference& sd, const string& w)
    {
        const StructureAdapterPtr sa = real[a], sb = b >= 0 ? real[b] : StructureAdapterPtr();
        if (sd.stru0 != sa || sd.stru1 != sb) ctx.fail("diff:structures", "%s: refers to other structures", w.c_str());
        const vector<Atom>& A = obj[leafOf(a)].at;
        const vector<Atom> B = b >= 0 ? obj[leafOf(b)].at : vector<Atom>();
        const int n0 = int(A.size()), n1 = int(B.size());
        auto valid = [&](const SiteIndices& v, int n, const char* nm) {
            for (size_t k = 0; k < v.size(); ++k)
                if (v[k] < 0 || v[k] >= n || (k && v[k] <= v[k - 1])) ctx.fail("diff:indices", "%s: bad indices in %s", w.c_str(), nm);
        };
        valid(sd.pop0, n0, "pop0");
        valid(sd.add1, n1, "add1");
        const bool full = int(sd.pop0.size()) == n0 && int(sd.add1.size()) == n1;
        const bool fast = sd.pop0.size() < (1 - sqrt(0.5)) * n0;
        if (sd.allowsfastupdate() != fast) ctx.fail("diff:fast", "%s: %zu of %d sites are removed", w.c_str(), sd.pop0.size(), n0);
        if (a == b)
        {
            if (!sd.pop0.empty() || !sd.add1.empty() || sd.diffmethod != StructureDifference::Method::SIDEBYSIDE)
                ctx.fail("diff:self", "%s: structure differs from itself", w.c_str());
            return;
        }
        if (b < 0 || !comparable(a, b))
        {
            if (!full) ctx.fail("diff:unsound", "%s: %zu of %d and %zu of %d sites listed between structures of different kind, cell or symmetry",
                    w.c_str(), sd.pop0.size(), n0, sd.add1.size(), n1);
            if (sd.diffmethod != StructureDifference::Method::NONE) ctx.fail("diff:unsound", "%s: method for not comparable structures", w.c_str());
            ctx.count("diff.none");
            return;
        }
        vector<char> l0(n0), l1(n1);
        for (int k : sd.pop0) l0[k] = 1;
        for (int k : sd.add1) l1[k] = 1;
        if (sd.diffmethod == StructureDifference::Method::NONE) { if (!full) ctx.fail("diff:unsound", "%s: incomplete without a method", w.c_str()); }
        else if (sd.diffmethod == StructureDifference::Method::SIDEBYSIDE)
        {
            for (int k = 0; k < max(n0, n1); ++k)
            {
                const bool eq = k < n0 && k < n1 && same(A[k], B[k]);
                if ((k < n0 && bool(l0[k]) == eq) || (k < n1 && bool(l1[k]) == eq))
                    ctx.fail("diff:unsound", "%s: side by side, site %d is %s", w.c_str(), k, eq ? "the same but listed" : "different but not listed");
            }
            ctx.count("diff.sidebyside");
        }
        else
        {
            // unlisted sites are the same up to their order, listed have nothing in common
            vector<const Atom*> u0, u1, p0, p1;
            for (int k = 0; k < n0; ++k) (l0[k] ? p0 : u0).push_back(&A[k]);
            for (int k = 0; k < n1; ++k) (l1[k] ? p1 : u1).push_back(&B[k]);
            for (auto* x : u0)
            {
                size_t k = 0;
                while (k < u1.size() && !same(*x, *u1[k])) ++k;
                if (k == u1.size()) ctx.fail("diff:unsound", "%s: sorted, unlisted %s in the first structure has no counterpart", w.c_str(), x->atomtype.c_str());
                u1.erase(u1.begin() + k);
            }
            if (!u1.empty()) ctx.fail("diff:unsound", "%s: sorted, unlisted %s in the second structure has no counterpart", w.c_str(), u1[0]->atomtype.c_str());
            for (auto* x : p0) for (auto* y : p1)
                if (same(*x, *y)) ctx.fail("diff:unsound", "%s: sorted, listed %s is in both structures", w.c_str(), x->atomtype.c_str());
            ctx.count("diff.sorted");
        }
    }

    void checkEqual(int a, int b, const string& w)
    {
        const MS& x = obj[a];
        const MS& y = obj[b];
        if (x.kind > 3 || x.kind != y.kind || x.prec != y.prec) return;
        bool eq = x.at.size() == y.at.size();
        for (size_t k = 0; eq && k < x.at.size(); ++k) eq = same(x.at[k], y.at[k]);
        const auto& pa = *real[a];
        const auto& pb = *real[b];
        bool got, ne;
        if (x.kind == 0)
        {
            auto& p = static_cast<const AtomicStructureAdapter&>(pa); auto& q = static_cast<const AtomicStructureAdapter&>(pb);
            got = p == q; ne = p != q;
        }
        else
        {
            for (int k = 0; k < 6; ++k) eq = eq && x.lp[k] == y.lp[k];
            eq = eq && x.ops.size() == y.ops.size();
            for (size_t k = 0; eq && k < x.ops.size(); ++k) eq = sameop(x.ops[k], y.ops[k]);
            if (x.kind == 2)
            {
                auto& p = static_cast<const CrystalStructureAdapter&>(pa); auto& q = static_cast<const CrystalStructureAdapter&>(pb);
                got = p == q; ne = p != q;
            }
            else
            {
                auto& p = static_cast<const PeriodicStructureAdapter&>(pa); auto& q = static_cast<const PeriodicStructureAdapter&>(pb);
                got = p == q; ne = p != q;
            }
        }
        if (got != eq || ne == eq) ctx.fail("equality", "%s: reported %d/%d, expected %d", w.c_str(), got, !ne, eq);
    }

    // --- faults ------------------------------------------------------------------
    // run f with the pending allocation failure; true when it was completed
    template <class F> bool faulty(const F& f)
    {
        if (failat <= 0) { f(); return true; }
        bool done = false;
        seam::alloc_arm(failat, nfail);
        try { f(); done = true; }
        catch (const std::bad_alloc&) { }
        const long fired = seam::g_alloc.fired;
        seam::alloc_disarm();
        failat = 0;
        if (fired) { ctx.count("fault.alloc"); ctx.count(done ? "fault.absorbed" : "fault.failed"); }
        else if (!done) ctx.fail("bad-alloc", "without a failure");
        return done;
    }

    // --- operations ----------------------------------------------------------------
    void touch(int id) { obj[leafOf(id)].ver += 1; }

    void apply(const Op& op);
    void edit(const Op& op, long s);
    void bondop(const Op& op);
    int cloneModel(int id, StructureAdapterPtr r)
    {
        MS m = obj[id];
        if (m.kind == 4 || m.kind == 5)
        {
            StructureAdapterPtr src;
            if (auto x = boost::dynamic_pointer_cast<NoMetaStructureAdapter>(r)) src = x->getSourceStructure();
            if (auto x = boost::dynamic_pointer_cast<NoSymmetryStructureAdapter>(r)) src = x->getSourceStructure();
            if (!src) ctx.fail("copy:type", "copy of a wrapper has no source");
            if (src == real[m.src] && obj[m.src].kind != 6) ctx.fail("copy:shared", "copy of a wrapper shares the source");
            m.src = cloneModel(m.src, src);
        }
        return add(m, r);
    }
};

void T11::edit(const Op& op, long s)
{
    const string& n = op.n;
    const int lf = leafOf(slot[s]);
    MS& m = obj[lf];
    if (m.kind > 3) return;
    // edits are done by the source of a wrapper
    auto* a = dynamic_cast<AtomicStructureAdapter*>(sourceOf(real[slot[s]]).get());
    if (!a || a != real[lf].get()) ctx.fail("wrapper:source", "wrapped structure of slot %ld is a different one", s);
    auto* per = dynamic_cast<PeriodicStructureAdapter*>(a);
    auto* cry = dynamic_cast<CrystalStructureAdapter*>(a);
    const int sz = int(m.at.size());
    auto idx = [&](long k, int n) { return n > 0 ? int(((k % n) + n) % n) : 0; };
    if (n == "add")
    {
        if (sz >= 14) return;
        const int k = idx(op.I(1), sz + 1);
        Atom x = atomOf(op, op.I(2), 4);
        switch (op.I(3))
        {
            case 1: a->insert(a->begin() + k, x); m.at.insert(m.at.begin() + k, x); break;
            case 2: a->append(x); m.at.push_back(x); break;
            case 3: a->reserve(sz + 3); a->insert(k, x); m.at.insert(m.at.begin() + k, x); break;
            default:
            {
                auto ii = a->insert(k, x);
                m.at.insert(m.at.begin() + k, x);
                if (ii - a->begin() != k) ctx.fail("insert", "wrong iterator");
            }
        }
        touch(lf);
    }
    else if (n == "addn")
    {
        if (!has(op.I(2))) return;
        const MS& q = obj[leafOf(slot[op.I(2)])];
        if (q.kind > 3) return;
        const int f = idx(op.I(3), int(q.at.size()) + 1), l = min(int(q.at.size()), f + max(0, int(op.I(4))));
        if (sz + l - f > 14) return;
        vector<Atom> x(q.at.begin() + f, q.at.begin() + l);
        const int k = idx(op.I(1), sz + 1);
        a->insert(a->begin() + k, x.begin(), x.end());
        m.at.insert(m.at.begin() + k, x.begin(), x.end());
        touch(lf);
    }
    else if (n == "del")
    {
        if (!sz) return;
        const int k = idx(op.I(1), sz);
        auto ii = op.I(2) ? a->erase(a->begin() + k) : a->erase(k);
        m.at.erase(m.at.begin() + k);
        if (ii - a->begin() != k) ctx.fail("erase", "wrong iterator");
        touch(lf);
    }
    else if (n == "deln")
    {
        const int f = idx(op.I(1), sz + 1), l = min(sz, f + max(0, int(op.I(2))));
        a->erase(a->begin() + f, a->begin() + l);
        m.at.erase(m.at.begin() + f, m.at.begin() + l);
        touch(lf);
    }
    else if (n == "clear") { a->clear(); m.at.clear(); touch(lf); }
    else if (n == "asg")
    {
        const int c = idx(op.I(1), 5);
        if (op.I(2) && sz)
        {
            Atom x = m.at[0];
            a->assign(size_t(c), x);
            m.at.assign(size_t(c), x);
        }
        else
        {
            vector<Atom> x(m.at.begin(), m.at.begin() + min(c, sz));
            a->assign(x.begin(), x.end());
            m.at = x;
        }
        touch(lf);
    }
    else if (n == "mov" || n == "set" || n == "type" || n == "occ" || n == "uij" || n == "swap" || n == "rot")
    {
        if (!sz) return;
        const int k = idx(op.I(1), sz), l = idx(op.I(2), sz);
        if (n == "mov")
        {
            Atom& x = op.I(2) == 1 ? *(a->begin() + k) : op.I(2) == 2 ? *(a->rbegin() + (sz - 1 - k)) : op.I(2) == 3 ? a->at(k) : (*a)[k];
            for (int j = 0; j < 3; ++j) { x.xyz_cartn[j] += op.D(j); m.at[k].xyz_cartn[j] += op.D(j); }
        }
        if (n == "set") for (int j = 0; j < 3; ++j) { (*a)[k].xyz_cartn[j] = op.D(j); m.at[k].xyz_cartn[j] = op.D(j); }
        if (n == "type") { (*a)[k].atomtype = op.S(0); m.at[k].atomtype = op.S(0); }
        if (n == "occ") { (*a)[k].occupancy = op.D(0); m.at[k].occupancy = op.D(0); }
        if (n == "uij")
        {
            Atom x = atomOf(op, op.I(2), 0);
            if (op.I(3))
            {
                // change the flag only
                const R3::Matrix& u = m.at[k].uij_cartn;
                if (u(0, 0) != u(1, 1) || u(0, 0) != u(2, 2) || u(0, 1) != 0.0 || u(0, 2) != 0.0 || u(1, 2) != 0.0) return;
                x.uij_cartn = u;
            }
            (*a)[k].uij_cartn = m.at[k].uij_cartn = x.uij_cartn;
            (*a)[k].anisotropy = m.at[k].anisotropy = op.I(2);
        }
        if (n == "swap") { std::swap((*a)[k], (*a)[l]); std::swap(m.at[k], m.at[l]); }
        if (n == "rot") { std::rotate(a->begin(), a->begin() + k, a->end()); std::rotate(m.at.begin(), m.at.begin() + k, m.at.end()); }
        touch(lf);
    }
    else if (n == "lat" || n == "latmod")
    {
        if (!per) return;
        double x[6];
        for (int k = 0; k < 6; ++k) x[k] = n == "lat" ? op.D(k, k < 3 ? 5 : 90) : m.lp[k];
        if (n == "latmod")
        {
            const int k = idx(op.I(1), 3), l = (k + 1) % 3;
            switch (op.I(2))
            {
                case 0: std::swap(x[k], x[l]); break;
                case 1: x[k] += op.D(0); break;
                case 2: x[3 + k] += op.D(0); break;
                case 3: x[3 + k] = 180 - x[3 + k]; break;
                default: std::swap(x[k], x[l]); std::swap(x[3 + k], x[3 + l]); break;
            }
            for (int j = 0; j < 3; ++j)
            {
                if (!(x[j] > 2.5 && x[j] < 8)) x[j] = 4;
                if (!(x[3 + j] > 65 && x[3 + j] < 115)) x[3 + j] = 90;
            }
        }
        per->setLatPar(x[0], x[1], x[2], x[3], x[4], x[5]);
        for (int k = 0; k < 6; ++k) m.lp[k] = x[k];
        // operations may not fit the new cell
        if (cry && (x[3] != 90 || x[4] != 90 || x[5] != 90))
            for (auto& o : m.ops)
            {
                bool e = o.R(0, 1) == 0;
                if (!e || o.R(0, 0) != o.R(1, 1) || o.R(0, 0) != o.R(2, 2)) m.group = false;
            }
        if (cry) for (auto& o : m.ops) if (o.R(0, 1) != 0) m.group = false;
        touch(lf);
    }
    else if (n == "group")
    {
        if (!cry) return;
        cry->clearSymOps();
        m.ops = groupOps(int(op.I(1)));
        for (size_t k = 0; k < m.ops.size(); ++k)
            if (k % 2) cry->addSymOp(m.ops[k]); else cry->addSymOp(m.ops[k].R, m.ops[k].t);
        m.group = anycell(int(op.I(1))) || (m.lp[3] == 90 && m.lp[4] == 90 && m.lp[5] == 90);
        touch(lf);
    }
    else if (n == "symop")
    {
        if (!cry || m.ops.size() > 9) return;
        SymOpRotTrans o = symop(idx(op.I(1), 64));
        cry->addSymOp(o);
        m.ops.push_back(o);
        m.group = false;
        touch(lf);
    }
    else if (n == "symclr") { if (!cry) return; cry->clearSymOps(); m.ops.clear(); m.group = true; touch(lf); }
    else if (n == "prec")
    {
        if (!cry) return;
        bool ok = true;
        try { cry->setSymmetryPrecision(op.D(0)); }
        catch (const std::invalid_argument&) { ok = false; }
        if (ok != (op.D(0) > 0)) ctx.fail("precision", "value %g was %s", op.D(0), ok ? "accepted" : "refused");
        if (ok) { m.prec = op.D(0); touch(lf); }
        else ctx.count("fault.refused-value");
    }
    else if (n == "cfg")
    {
        if (m.kind != 3) return;
        static_cast<SimPeriodic*>(a)->cfg[op.S(0)] = op.D(0);
        m.cfg[op.S(0)] = op.D(0);
    }
}

void T11::bondop(const Op& op)
{
    const long gi = ((op.I(0) % NGEN) + NGEN) % NGEN;
    BGen& b = bg[gi];
    if (op.n == "bnew")
    {
        if (!has(op.I(1))) return;
        const int id = slot[op.I(1)];
        b = BGen();
        BaseBondGeneratorPtr g;
        if (!faulty([&]() { g = real[id]->createBondGenerator(); })) return;
        b.g = g;
        b.fresh = fresh(id);
        b.leaf = leafOf(id);
        b.ver = obj[b.leaf].ver;
        return;
    }
    if (!b.g || obj[b.leaf].ver != b.ver) { b.g.reset(); return; }
    const int n = b.fresh->countSites();
    if (!n) return;
    auto idx = [&](long k, int m) { return m > 0 ? int(((k % m) + m) % m) : 0; };
    if (op.n == "bset")
    {
        b.partial = false;
        const double lo0 = b.g->getRmin(), hi0 = b.g->getRmax();
        switch (op.I(1))
        {
            case 0: b.c.rmin = op.D(0); b.g->setRmin(op.D(0)); break;
            case 1: b.c.rmax = op.D(0); b.c.rmaxset = true; b.g->setRmax(op.D(0)); break;
            case 2: b.c.anchor = idx(op.I(2), n); b.g->selectAnchorSite(b.c.anchor); break;
            case 3:
                b.c.sel = 1; b.c.first = idx(op.I(2), n + 1); b.c.last = min(n, b.c.first + idx(op.I(3), n + 1));
                b.g->selectSiteRange(b.c.first, b.c.last);
                break;
            default:
                b.c.sel = 2;
                b.c.sites.clear();
                for (int k = 0; k < n; ++k) if (op.I(2) >> k & 1) b.c.sites.push_back(k);
                if (op.I(3)) reverse(b.c.sites.begin(), b.c.sites.end());
                if (op.I(1) == 4) b.g->selectSites(b.c.sites);
                else { b.keep = b.c.sites; b.g->selectSites(b.keep.begin(), b.keep.end()); }
                break;
        }
        // a change makes an iteration that is underway invalid
        const bool changed = op.I(1) == 0 ? lo0 != b.g->getRmin() : op.I(1) == 1 ? hi0 != b.g->getRmax() : op.I(1) != 5;
        if (changed && !b.g->finished()) ctx.fail("generator:finished", "not finished after a change");
        if (b.g->getRmin() != b.c.rmin || (b.c.rmaxset && b.g->getRmax() != b.c.rmax)) ctx.fail("generator:range", "wrong range");
        return;
    }
    if (!b.c.rmaxset) { b.c.rmaxset = true; b.c.rmax = 3; b.g->setRmax(3); }
    if (op.n == "bstep")
    {
        // partial loop, it may continue later
        if (!b.partial) { if (b.c.anchor == 0) b.g->selectAnchorSite(0); b.g->rewind(); b.partial = true; }
        for (long k = max(0L, op.I(1)); k > 0 && !b.g->finished(); --k) b.g->next();
        if (b.g->finished()) { b.partial = false; return; }
        // the current bond must be one of a fresh generator
        BaseBondGeneratorPtr fg = b.fresh->createBondGenerator();
        configure(*fg, b.c, n, 0);
        Bond x;
        x.s1 = b.g->site1(); x.d = b.g->distance(); x.r0 = b.g->r0(); x.r1 = b.g->r1(); x.r01 = b.g->r01();
        x.u0 = b.g->Ucartesian0(); x.u1 = b.g->Ucartesian1(); x.m = b.g->multiplicity(); x.msd = 0;
        vector<Bond> one(1, x);
        int k = missing(one, bonds(*fg));
        if (k >= 0) ctx.fail("neighbours:suspended", "bond of generator %ld to site %d distance %.10g U1 %.6g is not in the fresh structure", gi, x.s1, x.d, x.u1(0, 0));
        ctx.count("suspended-bonds");
        return;
    }
    if (op.n == "blist")
    {
        b.partial = false;
        if (b.c.anchor == 0) b.g->selectAnchorSite(0);
        BaseBondGeneratorPtr fg = b.fresh->createBondGenerator();
        configure(*fg, b.c, n, 0);
        compareBonds(bonds(*b.g), bonds(*fg), "generator", strprintf("generator %ld", gi));
        ctx.count("generator-lists");
    }
}

void T11::apply(const Op& op)
{
    const string& n = op.n;
    const long s = op.I(0);
    if (n == "f") { failat = op.I(0); nfail = max(1L, op.I(1)); return; }
    if (n == "check")
    {
        for (int k = 0; k < NSLOT; ++k) if (has(k)) checkAll(slot[k], strprintf("slot %d", k));
        return;
    }
    if (n[0] == 'b') { bondop(op); return; }
    if (n == "save")
    {
        const long k = ((s % NSAVE) + NSAVE) % NSAVE;
        vector<StructureAdapterPtr> v;
        for (int j = 0; j < NSLOT; ++j) v.push_back(has(j) ? real[slot[j]] : StructureAdapterPtr());
        string t;
        if (!faulty([&]() { t = diffpy::serialization_tostring(v); })) return;
        snap[k] = t;
        sobj[k] = obj;
        sslot[k] = slot;
        ctx.count("saved");
        return;
    }
    if (n == "load")
    {
        const long k = ((s % NSAVE) + NSAVE) % NSAVE;
        if (snap[k].empty()) return;
        vector<StructureAdapterPtr> v;
        if (!g_loadfaults) failat = 0;
        if (!faulty([&]() { diffpy::serialization_fromstring(v, snap[k]); })) return;
        if (v.size() != size_t(NSLOT)) ctx.fail("restore", "%zu structures restored", v.size());
        for (auto& b : bg) b = BGen();
        map<int,int> ids;
        // the copies have the same relations
        std::function<int(int, StructureAdapterPtr)> rest = [&](int id, StructureAdapterPtr r) {
            if (!r) ctx.fail("restore:lost", "structure was not restored");
            auto it = ids.find(id);
            if (it != ids.end())
            {
                if (real[it->second] != r) ctx.fail("restore:sharing", "shared structure is not shared after restore");
                return it->second;
            }
            MS m = sobj[k][id];
            m.ver = 0;
            StructureAdapterPtr src;
            if (auto x = boost::dynamic_pointer_cast<NoMetaStructureAdapter>(r)) src = x->getSourceStructure();
            if (auto x = boost::dynamic_pointer_cast<NoSymmetryStructureAdapter>(r)) src = x->getSourceStructure();
            if (bool(src) != (m.kind == 4 || m.kind == 5)) ctx.fail("restore:type", "restored structure has another type");
            if (src) m.src = rest(m.src, src);
            for (size_t j = 0; j < real.size(); ++j)
                if (real[j] == r && m.kind != 6) ctx.fail("restore:sharing", "restored structure is shared with another one");
            int rv = add(m, r);
            ids[id] = rv;
            return rv;
        };
        for (int j = 0; j < NSLOT; ++j)
        {
            slot[j] = -1;
            if (sslot[k][j] >= 0) slot[j] = rest(sslot[k][j], v[j]);
            else if (v[j]) ctx.fail("restore:lost", "empty slot %d was restored", j);
        }
        ctx.count("fault.restart");
        return;
    }
    if (s < 0 || s >= NSLOT) return;
    if (n == "new")
    {
        MS m;
        m.kind = int(op.I(1));
        StructureAdapterPtr p;
        if (m.kind >= 0 && m.kind <= 3)
        {
            for (int k = 0; k < 6; ++k) m.lp[k] = op.D(k, k < 3 ? 5 : 90);
            if (m.kind == 0) p.reset(new AtomicStructureAdapter);
            if (m.kind == 1) p.reset(new PeriodicStructureAdapter);
            if (m.kind == 2) p.reset(new CrystalStructureAdapter);
            if (m.kind == 3) p.reset(new SimPeriodic);
            if (m.kind) static_cast<PeriodicStructureAdapter*>(p.get())->setLatPar(m.lp[0], m.lp[1], m.lp[2], m.lp[3], m.lp[4], m.lp[5]);
        }
        else if (m.kind == 6) p = emptyStructureAdapter();
        else
        {
            if (!has(op.I(2))) return;
            int src = slot[op.I(2)];
            const int w = (m.kind == 4 || m.kind == 7) ? 4 : 5;
            const bool viactor = m.kind > 6;
            m.kind = w;
            int depth = 0;
            for (int k = src; obj[k].kind == 4 || obj[k].kind == 5; k = obj[k].src) ++depth;
            if (depth > 3) return;
            if (!viactor)
            {
                p = w == 4 ? nometa(real[src]) : nosymmetry(real[src]);
                if (obj[src].kind == w)
                {
                    if (p != real[src]) ctx.fail("wrapper:again", "wrapper was wrapped again");
                    slot[s] = src;
                    return;
                }
            }
            else
            {
                if (w == 4) p.reset(new NoMetaStructureAdapter(real[src])); else p.reset(new NoSymmetryStructureAdapter(real[src]));
                if (obj[src].kind == w) src = obj[src].src;
            }
            m.src = src;
        }
        slot[s] = add(m, p);
        return;
    }
    if (n == "copy" || n == "alias" || n == "assign" || n == "conv")
    {
        if (!has(op.I(1))) return;
        const int src = slot[op.I(1)];
        if (n == "alias") { slot[s] = src; return; }
        if (n == "copy")
        {
            StructureAdapterPtr p;
            if (!faulty([&]() { p = real[src]->clone(); })) return;
            if (!p || typeid(*p) != typeid(*real[src])) ctx.fail("copy:type", "copy has another type");
            if (p == real[src] && obj[src].kind != 6) ctx.fail("copy:shared", "copy is the same object");
            slot[s] = cloneModel(src, p);
            return;
        }
        if (n == "conv")
        {
            const MS& q = obj[leafOf(src)];
            if (q.kind > 3) return;
            MS m;
            m.kind = int(((op.I(2) % 4) + 4) % 4);
            m.at = q.at;
            for (int k = 0; k < 6; ++k) m.lp[k] = q.periodic() && m.kind ? q.lp[k] : k < 3 ? 5 : 90;
            if (m.kind == 2 && q.kind == 2) { m.ops = q.ops; m.group = q.group; m.prec = q.prec; }
            vector<MS> tmp(1, m);
            map<int, StructureAdapterPtr> memo;
            slot[s] = add(m, fresh(0, memo, tmp));
            return;
        }
        if (!has(s)) return;
        const int a = leafOf(slot[s]), b = leafOf(src);
        if (obj[a].kind > 3 || obj[b].kind > 3) return;
        if (obj[a].kind == obj[b].kind)
        {
            switch (obj[a].kind)
            {
                case 0: static_cast<AtomicStructureAdapter&>(*real[a]) = static_cast<AtomicStructureAdapter&>(*real[b]); break;
                case 1: static_cast<PeriodicStructureAdapter&>(*real[a]) = static_cast<PeriodicStructureAdapter&>(*real[b]); break;
                case 2: static_cast<CrystalStructureAdapter&>(*real[a]) = static_cast<CrystalStructureAdapter&>(*real[b]); break;
                case 3: static_cast<SimPeriodic&>(*real[a]) = static_cast<SimPeriodic&>(*real[b]); break;
            }
            const long v = obj[a].ver;
            obj[a] = MS(obj[b]);
            obj[a].ver = v;
        }
        else
        {
            static_cast<AtomicStructureAdapter&>(*real[a]) = static_cast<AtomicStructureAdapter&>(*real[b]);
            obj[a].at = vector<Atom>(obj[b].at);
        }
        touch(a);
        return;
    }
    if (!has(s)) return;
    if (n == "drop") { slot[s] = -1; return; }
    const string w = strprintf("slot %ld", s);
    if (n == "diff")
    {
        const int a = slot[s], b = has(op.I(1)) ? slot[op.I(1)] : -1;
        StructureDifference sd;
        if (!faulty([&]() { sd = real[a]->diff(b >= 0 ? real[b] : StructureAdapterPtr()); })) return;
        checkDiff(a, b, sd, w + strprintf(" to %ld", op.I(1)));
        if (b >= 0) checkEqual(a, b, w + strprintf(" and %ld", op.I(1)));
        return;
    }
    if (n == "q")
    {
        const int id = slot[s], nn = int(obj[leafOf(id)].at.size());
        const StructureAdapterPtr p = real[id];
        const int i = nn ? int(((op.I(2) % nn) + nn) % nn) : 0;
        StructureAdapterPtr f = fresh(id);
        double x = 0, y = 0;
        auto* cr = dynamic_cast<CrystalStructureAdapter*>(p.get());
        switch (op.I(1))
        {
            case 0: if (nn) { faulty([&]() { x = p->siteMultiplicity(i); }); checkSite(id, *p, *f, i, w); } break;
            case 1: if (faulty([&]() { x = p->totalOccupancy(); }) && !near(x, f->totalOccupancy())) ctx.fail("total-occupancy", "%s: %.12g, fresh structure has %.12g", w.c_str(), x, f->totalOccupancy()); break;
            case 2: if (faulty([&]() { x = p->numberDensity(); }) && !near(x, f->numberDensity())) ctx.fail("density", "%s: %.12g, fresh structure has %.12g", w.c_str(), x, f->numberDensity()); break;
            case 3:
                if (!cr || !nn) break;
                faulty([&]() { x = cr->getEquivalentAtoms(i).size(); });
                checkEq(*cr, *dynamic_cast<CrystalStructureAdapter*>(f.get()), i, w);
                break;
            case 4: if (cr) faulty([&]() { cr->updateSymmetryPositions(); }); break;
            case 5:
                if (nn)
                {
                    GenCfg c = randomCfg(nn);
                    vector<Bond> b;
                    BaseBondGeneratorPtr g;
                    if (faulty([&]() { g = p->createBondGenerator(); })) compareBonds(neighbours(p, c), neighbours(f, c), "structure", w);
                }
                break;
            default: if (!cr || !nn) break;
                {
                    // expansion of an atom of the unit cell
                    Atom a0 = obj[id].at[i];
                    cr->toFractional(a0);
                    auto ea = cr->expandLatticeAtom(a0);
                    auto eb = dynamic_cast<CrystalStructureAdapter*>(f.get())->expandLatticeAtom(a0);
                    if (ea.size() != eb.size()) ctx.fail("expansion", "%s site %d: %zu atoms, expected %zu", w.c_str(), i, ea.size(), eb.size());
                    for (size_t k = 0; k < ea.size(); ++k) if (!near(ea[k].xyz_cartn, eb[k].xyz_cartn)) ctx.fail("expansion", "%s site %d differs", w.c_str(), i);
                }
        }
        ctx.count("queries");
        return;
    }
    edit(op, s);
}

}   // namespace

static Scenario gen(uint64_t seed, bool thorough)
{
    Rng r(seed ^ 0xc11);
    Scenario sc;
    sc.prop = "C11";
    sc.seed = seed;
    auto add = [&](const string& n, vector<long> i = {}, vector<double> d = {}, vector<string> s = {}) { sc.ops.push_back(Op(n, i, d, s)); };
    const int ns = r.range(2, 5);
    vector<string> types;
    for (int k = r.range(1, 3); k > 0; --k) types.push_back(r.pick(goodtypes()));
    const double pcry = r.pick(vector<double>{0.3, 0.6, 0.9});
    const bool ortho = r.chance(0.6);
    // small cells and generators with many changes of a wider range
    const bool ranges = r.chance(0.25);
    auto lp = [&]() {
        vector<double> v = {r.uni(3, 6), r.uni(3, 6), r.uni(3, 6), 90, 90, 90};
        if (ranges) for (int k = 0; k < 3; ++k) v[k] = r.uni(1.2, 2.4);
        if (r.chance(0.2)) v[1] = v[0];
        if (!ortho && r.chance(0.7)) for (int k = 3; k < 6; ++k) v[k] = r.uni(75, 105);
        return v;
    };
    // many atoms in some histories
    const bool big = !ranges && Rng(seed ^ 0x626967).chance(0.03);
    const int nk = big ? 64 : 8;
    const double pspec = r.pick(vector<double>{0.0, 0.2, 0.6});
    auto coord = [&]() {
        if (!r.chance(pspec)) return r.uni(-1, 6);
        return r.pick(vector<double>{0, 0, 0, 1e-6, -1e-6, 2e-5, 1e-3});
    };
    auto atom = [&](int s) {
        vector<double> d = {coord(), coord(), coord(), r.chance(0.4) ? r.uni(0, 1) : 1.0};
        double u = r.chance(0.2) ? 0 : r.uni(0.002, 0.03);
        for (int k = 0; k < 3; ++k) d.push_back(u * r.uni(0.8, 1.2));
        add("add", {s, r.below(6), r.chance(0.4), r.below(4)}, d, {r.pick(types)});
    };
    vector<int> kinds(NSLOT, -1);
    auto make = [&](int s) {
        int k = r.chance(pcry) ? 2 : r.pick(vector<int>{0, 1, 3, 3});
        if (r.chance(0.05)) k = 6;
        kinds[s] = k;
        add("new", {s, k}, lp());
        if (k == 2 && r.chance(0.85)) add("group", {s, r.below(8)});
        if (k == 3 && r.chance(0.5)) add("cfg", {s}, {r.uni(0.5, 2)}, {r.chance(0.5) ? "scale" : "qdamp"});
        int n = r.chance(0.1) ? 0 : r.range(1, ranges ? 2 : 7);
        if (big && n > 1) n = k == 2 ? n + 8 : r.range(20, 60);
        for (; n > 0; --n) atom(s);
    };
    for (int s = 0; s < ns; ++s)
    {
        if (s && r.chance(0.4)) { add("copy", {s, r.below(s)}); kinds[s] = kinds[0]; }
        else if (s && r.chance(0.3)) { add("new", {s, r.pick(vector<int>{4, 5, 7, 8}), r.below(s)}); kinds[s] = 4; }
        else make(s);
    }
    const double pf = r.chance(0.6) ? 0.0 : r.pick(vector<double>{0.1, 0.4});
    auto fault = [&]() { if (r.chance(pf)) add("f", {long(exp(r.uni(0, log(r.chance(0.5) ? 20. : 300.)))), r.pick(vector<int>{1, 1, 3, 1000000})}); };
    vector<double> w = {6, 3, 3, 1.2, 1.0, 1.5, 4, 1, 1};
    for (double& x : w) { double u = r.uni(); if (u < 0.2) x = 0; else if (u > 0.8) x *= 3; }
    w[0] = max(w[0], 1.0);
    if (ranges) w[6] = 20;
    w[1] = max(w[1], 0.5);
    const int nst = thorough ? r.range(10, 90) : r.range(8, 45);
    for (int k = 0; k < nst; ++k)
    {
        const int s = r.below(ns), t = r.below(ns);
        switch (r.weighted(w))
        {
            case 0: // edits
            {
                static const double mv[] = {1, 0.1, 1e-3, 1e-5};
                double a = mv[r.below(4)];
                switch (r.weighted({4, 2, 2, 1, 1, 1, 1.5, 1.5, 1, 1, 0.4, 0.4, 1.2, 0.6, 1}))
                {
                    case 0: add("mov", {s, r.below(nk), r.below(4)}, {r.uni(-a, a), r.uni(-a, a), r.uni(-a, a)}); break;
                    case 1: atom(s); break;
                    case 2: add("del", {s, r.below(nk), r.below(2)}); break;
                    case 3: add("type", {s, r.below(nk)}, {}, {r.pick(types)}); break;
                    case 4: add("occ", {s, r.below(nk)}, {r.chance(0.3) ? 1.0 : r.uni(0, 1)}); break;
                    case 5: { double u = r.uni(0.002, 0.03); 
                            vector<double> d{u, u * r.uni(0.8, 1.2), u * r.uni(0.8, 1.2)};
                            if (r.chance(0.4)) for (int j = 0; j < 3; ++j) d.push_back(r.chance(0.5) ? 0.0 : u * r.uni(-0.3, 0.3));
                            add("uij", {s, r.below(nk), r.chance(0.5), r.chance(0.3)}, d);
                            break;
                        }
                    case 6: add("swap", {s, r.below(nk), r.below(nk)}); break;
                    case 7: if (r.chance(0.5)) add("lat", {s}, lp()); else add("latmod", {s, r.below(3), r.chance(0.5) || !ortho ? r.below(5) : 0}, {r.pick(vector<double>{1, -0.5, 1e-2, 1e-6}) * r.uni(0.3, 1)}); break;
                    case 8: add("group", {s, r.below(8)}); break;
                    case 9: if (r.chance(0.6)) add("symop", {s, r.below(64)}); else add("symclr", {s}); break;
                    case 10: if (r.chance(0.5)) add("deln", {s, r.below(6), r.below(4)}); else add("addn", {s, r.below(6), t, r.below(5), r.below(4)}); break;
                    case 11: if (r.chance(0.3)) add("clear", {s}); else add("asg", {s, r.below(5), r.below(2)}); break;
                    case 12: add("prec", {s}, {r.pick(vector<double>{5e-5, 1e-4, 1e-3, 1e-2, 0.1, 1e-6, 0, -1})}); break;
                    case 13: add("rot", {s, r.below(6)}); break;
                    default: add("set", {s, r.below(nk)}, {coord(), coord(), coord()}); break;
                }
                if (r.chance(0.1)) add("cfg", {s}, {r.uni(0.5, 2)}, {r.chance(0.5) ? "scale" : "qdamp"});
                break;
            }
            case 1: fault(); add("q", {s, r.below(7), r.below(nk)}); break;
            case 2:
                fault();
                if (r.chance(0.03)) add("diff", {s, -1}); else add("diff", {s, t});
                break;
            case 3: fault(); if (s != t || r.chance(0.3)) { add("copy", {s, t}); kinds[s] = kinds[t]; } break;
            case 4:
                if (r.chance(0.5)) { if (s != t || r.chance(0.2)) add("new", {s, r.pick(vector<int>{4, 5, 7, 8}), t}); }
                else if (r.chance(0.4)) add("alias", {s, t});
                else if (r.chance(0.5)) add("conv", {s, t, r.below(4)});
                else make(s);
                break;
            case 5: add("assign", {s, t}); break;
            case 6:
            {
                const int g = r.below(NGEN);
                if (r.chance(ranges ? 0.15 : 0.35)) { fault(); add("bnew", {g, s}); add("bset", {g, 1}, {r.uni(1.5, 4.5)}); break; }
                if (ranges && r.chance(0.4))
                {
                    const bool lo = r.chance(0.5);
                    add("bset", {g, lo ? 0 : 1}, {lo ? r.pick(vector<double>{0, r.uni(0, 7), r.uni(4, 7)}) : r.uni(1, 7)});
                }
                if (r.chance(0.5))
                {
                    int what = r.below(6);
                    add("bset", {g, what, what >= 4 ? r.below(256) : r.below(8), r.below(what == 3 ? 8 : 2)}, {what == 0 ? (r.chance(0.4) ? 0.0 : r.uni(0, 3)) : r.uni(1.5, 5)});
                }
                if (r.chance(0.5)) add("bstep", {g, r.range(0, 12)}); else add("blist", {g});
                break;
            }
            case 7: fault(); add(r.chance(0.5) ? "save" : "load", {r.below(NSAVE)}); break;
            default: add("check"); break;
        }
    }
    add("check");
    for (int k = 0; k < 4; ++k) add("diff", {r.below(ns), r.below(ns)});
    return sc;
}

static void run(const Scenario& sc, Ctx& ctx)
{
    g_simbnds = false;
    T11 t(ctx, sc.seed);
    long nq = 0;
    for (auto& op : sc.ops)
    {
        t.apply(op);
        string f = op.n;
        const long s = op.I(0);
        if (op.n[0] != 'b' && t.has(s))
        {
            const MS& m = t.obj[t.leafOf(t.slot[s])];
            f += strprintf("/%d/%d/n%d/o%d", t.obj[t.slot[s]].kind, m.kind, min(5, int(m.at.size())), int(m.ops.size()));
        }
        ctx.feat(f);
        ctx.log("%s", op.str().c_str());
        if (op.n == "q" || op.n == "check" || op.n == "diff" || op.n == "blist") ++nq;
    }
    // state at the end
    for (int k = 0; k < NSLOT; ++k)
        if (t.has(k))
        {
            auto s = t.real[t.slot[k]];
            ctx.log("slot %d sites %d occupancy %.15g density %.15g", k, s->countSites(), s->totalOccupancy(), s->numberDensity());
        }
    if (nq > 2 && ctx.cnt["checked"] > 0) ctx.count("nontrivial");
}

static Register reg(Property{"C11", gen, run, preloadTables});

}   // namespace sim
