// C12: custom entries of tables against plain maps over the standard data.
#include "world.hpp"
#include <cmath>
#include <sstream>
namespace sim {
using namespace std;

// f i=kind(0 callback, 1 allocation),nfail,at       next operation fails
// new i=fam,slot s=type             fam 0 scattering, 1 radii, 2 bond valence
// clone i=fam,slot,src              snap i=fam,slot
// sf.as i=slot s=sym,src            sf.val i=slot d=value,q s=sym,src
// sf.reset i=slot s=sym             sf.all i=slot
// rad.set i=slot d=r s=sym          rad.str i=slot s=text (valid)    rad.bad i=slot s=text
// rad.reset i=slot s=sym            rad.all i=slot        rad.def i=slot d=r
// bv.set i=slot,v0,v1 d=Ro,B s=a0,a1,ref
// bv.self i=slot,v0,v1,what s=a0,a1     set (0) or reset (1) by the reference from lookup
// bv.reset i=slot,v0,v1 s=a0,a1     bv.all i=slot
// bv.val i=slot,v s=sym             bv.valoff i=slot
// k.new i=calc,kind,evtype          k.attach i=calc,slot      k.eval i=calc,stru
// Operations on one family and its calculators work with 3 slots.

namespace {

const int NS = 3;
const vector<string> SYM = {"C", "O2-", "Na1+", "Na+", "Cl1-", "H", "H1+", "Ti4+", "Si", "12-C", "X", "Dummy",
    "very-long-symbol-of-an-atom", "another-long-atom-symbol"};
const vector<double> QS = {0.0, 1.0, 7.5};

struct SF
{
    ScatteringFactorTablePtr t;
    string type;
    map<string, pair<string,double>> m;
};
struct RD { AtomRadiiTablePtr t; map<string,double> m; double dflt = 0; };
struct BV
{
    BVParametersTablePtr t;
    struct K { string a0; int v0; string a1; int v1;
        bool operator<(const K& o) const { return tie(a0, v0, a1, v1) < tie(o.a0, o.v0, o.a1, o.v1); } };
    struct V { double Ro, B; string ref; };
    map<K,V> m;
    map<string,int> val;
    static K key(string a0, int v0, string a1, int v1)
    { if (v0 < v1) { swap(a0, a1); swap(v0, v1); } return K{a0, v0, a1, v1}; }
};

string bare(const string& s)
{
    size_t b = s.find_first_not_of("0123456789- \t"), e = s.find_last_not_of("+-012345678 \t");
    return b == string::npos || e == string::npos ? "" : s.substr(b, e - b + 1);
}

bool close(double a, double b) { return a == b || (a != a && b != b) || fabs(a - b) <= 1e-9 * max(fabs(a), fabs(b)); }

struct T12
{
    Ctx& ctx;
    vector<SF> sf;
    vector<RD> rd;
    vector<BV> bv;
    map<string,ScatteringFactorTablePtr> pristine;
    map<BV::K,BV::V> bvstd;
    World w;
    vector<int> att;
    string where;
    T12(Ctx& c) : ctx(c), sf(NS), rd(NS), bv(NS), att(16, -1)
    {
        for (auto t : {"xray", "electron", "neutron", "electronnumber"})
            pristine[t] = ScatteringFactorTable::createByType(t);
        pristine["sim"] = pristine["xray"];
        BVParametersTable b;
        for (const BVParam& p : b.getAll()) bvstd[BV::key(p.matom0, p.mvalence0, p.matom1, p.mvalence1)] = {p.mRo, p.mB, p.mref_id};
    }
    // standard value, false when there is none
    bool std1(const string& type, const string& s, double q, double& v) const
    {
        try { v = pristine.at(type)->standardLookup(s, q); return true; }
        catch (const invalid_argument&) { return false; }
    }
    bool model(const SF& x, const string& s, double q, double& v) const
    {
        auto it = x.m.find(s);
        if (it == x.m.end()) return std1(x.type, s, q, v);
        if (!std1(x.type, it->second.first, q, v)) return false;
        v *= it->second.second;
        return true;
    }
    const BV::V* model(const BV& x, const BV::K& k) const
    {
        auto it = x.m.find(k);
        if (it != x.m.end()) return &it->second;
        it = bvstd.find(k);
        if (it != bvstd.end()) return &it->second;
        if (k.v0 <= 0) return 0;
        BV::K k9 = k;
        k9.v0 = 9;
        it = x.m.find(k9);
        if (it != x.m.end()) return &it->second;
        it = bvstd.find(k9);
        if (it != bvstd.end()) return &it->second;
        return 0;
    }
    int valence(const BV& x, const string& s) const
    {
        auto it = x.val.find(s);
        if (it != x.val.end()) return it->second;
        // trailing sign with optional digit before
        int n = int(s.size()), v = 0;
        while (n && isspace(s[n - 1])) --n;
        if (n && (s[n - 1] == '+' || s[n - 1] == '-'))
        {
            v = s[n - 1] == '+' ? 1 : -1;
            --n;
            while (n && isspace(s[n - 1])) --n;
            if (n && s[n - 1] >= '0' && s[n - 1] <= '8') v *= s[n - 1] - '0';
        }
        return v;
    }

    void checkSF(int k)
    {
        const SF& x = sf[k];
        if (!x.t) return;
        for (const string& s : SYM) for (double q : QS)
        {
            double v = 0, e = 0;
            bool has = true, ehas = model(x, s, q, e);
            try { v = x.t->lookup(s, q); } catch (const invalid_argument&) { has = false; }
            if (has != ehas || (has && !close(v, e)))
                ctx.fail("scattering-lookup", "%s: table %d (%s) lookup(%s, %g) is %s, expected %s", where.c_str(), k,
                        x.type.c_str(), s.c_str(), q, has ? strprintf("%.15g", v).c_str() : "error",
                        ehas ? strprintf("%.15g", e).c_str() : "error");
        }
        set<string> a, b;
        for (const string& s : x.t->getCustomSymbols()) a.insert(s);
        for (auto& kv : x.m) b.insert(kv.first);
        if (a != b) ctx.fail("custom-symbols", "%s: table %d", where.c_str(), k);
        ctx.count("checked");
    }
    void checkRD(int k)
    {
        const RD& x = rd[k];
        if (!x.t) return;
        for (const string& s : SYM)
        {
            auto it = x.m.find(s);
            double e = it == x.m.end() ? x.dflt : it->second, v = x.t->lookup(s);
            if (!close(v, e)) ctx.fail("radius-lookup", "%s: table %d lookup(%s) is %.15g, expected %.15g", where.c_str(), k, s.c_str(), v, e);
        }
        auto all = x.t->getAllCustom();
        map<string,double> a(all.begin(), all.end());
        if (a != x.m) ctx.fail("custom-radii", "%s: table %d", where.c_str(), k);
        ostringstream os;
        os.imbue(locale::classic());
        string sep = (k & 1) ? ", " : ",";
        for (auto& kv : x.m) os << (os.tellp() > 0 ? sep : "") << kv.first << ":" << kv.second;
        string s = (k & 1) ? x.t->toString(sep) : x.t->toString();
        if (s != os.str()) ctx.fail("radii-string", "%s: table %d '%s', expected '%s'", where.c_str(), k, s.c_str(), os.str().c_str());
        ctx.count("checked");
    }
    void checkBVone(int k, const BVParam& p, const BV::K& key)
    {
        const BV::V* e = model(bv[k], key);
        bool has = p.matom0.size();
        bool ok = has == bool(e) && (!e || (p.mRo == e->Ro && p.mB == e->B && p.mref_id == e->ref &&
                    p.matom0 == key.a0 && p.matom1 == key.a1 && p.mvalence1 == key.v1 && (p.mvalence0 == key.v0 || p.mvalence0 == 9)));
        if (!ok)
            ctx.fail("bond-valence-lookup", "%s: table %d lookup(%s %d %s %d) is %s %d %s %d %g %g '%s', expected %s %g %g '%s'",
                    where.c_str(), k, key.a0.c_str(), key.v0, key.a1.c_str(), key.v1, p.matom0.c_str(), p.mvalence0,
                    p.matom1.c_str(), p.mvalence1, p.mRo, p.mB, p.mref_id.c_str(), e ? "" : "none", e ? e->Ro : 0, e ? e->B : 0, e ? e->ref.c_str() : "");
    }
    void checkBV(int k)
    {
        const BV& x = bv[k];
        if (!x.t) return;
        for (const string& s : SYM) if (valence(x, s) != x.t->getAtomValence(s))
            ctx.fail("atom-valence", "%s: table %d %s: %d, expected %d", where.c_str(), k, s.c_str(), x.t->getAtomValence(s), valence(x, s));
        for (const string& a : SYM) for (const string& b : SYM)
        {
            BV::K key = BV::key(bare(a), valence(x, a), bare(b), valence(x, b));
            checkBVone(k, x.t->lookup(a, b), key);
        }
        for (auto& kv : x.m) 
        {
            // atoms may come in any order unless their valences are the same
            const BV::K& y = kv.first;
            checkBVone(k, x.t->lookup(y.a0, y.v0, y.a1, y.v1), y);
            if (y.v0 != y.v1) checkBVone(k, x.t->lookup(y.a1, y.v1, y.a0, y.v0), y);
        }
        map<BV::K,BV::V> m = bvstd;
        for (auto& kv : x.m) m[kv.first] = kv.second;
        auto all = x.t->getAll();
        bool ok = all.size() == m.size();
        for (const BVParam& p : all)
        {
            auto it = m.find(BV::key(p.matom0, p.mvalence0, p.matom1, p.mvalence1));
            ok = ok && it != m.end() && it->second.Ro == p.mRo && it->second.B == p.mB && it->second.ref == p.mref_id;
        }
        if (!ok) ctx.fail("all-bond-valences", "%s: table %d getAll", where.c_str(), k);
        auto cust = x.t->getAllCustom();
        ok = cust.size() == x.m.size();
        for (const BVParam& p : cust)
        {
            auto it = x.m.find(BV::key(p.matom0, p.mvalence0, p.matom1, p.mvalence1));
            ok = ok && it != x.m.end() && it->second.Ro == p.mRo && it->second.B == p.mB && it->second.ref == p.mref_id;
        }
        if (!ok) ctx.fail("custom-bond-valences", "%s: table %d getAllCustom", where.c_str(), k);
        ctx.count("checked");
    }
    void check() { for (int k = 0; k < NS; ++k) { checkSF(k); checkRD(k); checkBV(k); } }

    static int family(int kind) { return kind == KPDF || kind == KDPDF ? 0 : kind == KOVL ? 1 : kind == KBVS ? 2 : -1; }
    void attach(World& f, int c, int slot, bool rebuilt)
    {
        PairQuantity* pq = f.calc[c].get();
        int fam = family(f.meta[c].kind);
        if (fam == 0)
        {
            auto o = dynamic_cast<ScatteringFactorTableOwner*>(pq);
            ScatteringFactorTablePtr t = sf[slot].t;
            if (rebuilt)
            {
                t = ScatteringFactorTable::createByType(sf[slot].type == "sim" ? "xray" : sf[slot].type);
                for (auto& kv : sf[slot].m)
                {
                    double s1 = 0;
                    const string& src = kv.second.first;
                    if (kv.second.second != 1.0 && std1(sf[slot].type, src, 1.0, s1)) t->setCustomAs(kv.first, src, kv.second.second * s1, 1.0);
                    else t->setCustomAs(kv.first, src);
                }
            }
            o->setScatteringFactorTable(t);
        }
        else if (fam == 1)
        {
            AtomRadiiTablePtr t = rd[slot].t;
            if (rebuilt)
            {
                auto c = boost::shared_ptr<ConstantRadiiTable>(new ConstantRadiiTable);
                c->setDefault(rd[slot].dflt);
                for (auto& kv : rd[slot].m) c->setCustom(kv.first, kv.second);
                t = c;
            }
            dynamic_cast<OverlapCalculator*>(pq)->setAtomRadiiTable(t);
        }
        else
        {
            BVParametersTablePtr t = bv[slot].t;
            if (rebuilt)
            {
                t.reset(new BVParametersTable);
                for (auto& kv : bv[slot].m) t->setCustom(kv.first.a0, kv.first.v0, kv.first.a1, kv.first.v1, kv.second.Ro, kv.second.B, kv.second.ref);
                for (auto& kv : bv[slot].val) t->setAtomValence(kv.first, kv.second);
            }
            dynamic_cast<BVSCalculator*>(pq)->setBVParamTable(t);
        }
    }
};

bool hastable(const T12& t, int fam, int slot)
{ return fam == 0 ? bool(t.sf[slot].t) : fam == 1 ? bool(t.rd[slot].t) : fam == 2 ? bool(t.bv[slot].t) : false; }

}   // namespace

static Scenario gen(uint64_t seed, bool thorough)
{
    Rng r(seed ^ 0xc12);
    Scenario sc;
    sc.prop = "C12";
    sc.seed = seed;
    auto add = [&](const string& n, vector<long> i, vector<double> d = {}, vector<string> s = {}) { sc.ops.push_back(Op(n, i, d, s)); };
    // one or two families, some of symbols to hit them repeatedly
    vector<int> fams = {r.below(3)};
    if (r.chance(0.3)) fams.push_back(r.below(3));
    vector<string> syms, bvs;
    int nsym = r.range(2, 5);
    while (nsym--) syms.push_back(r.pick(SYM));
    static const vector<string> types = {"xray", "electron", "neutron", "electronnumber", "sim"};
    auto newt = [&](int fam, int slot) { add("new", {fam, slot}, {}, {r.pick(types)}); };
    for (int f : fams) for (int k = 0; k < NS; ++k) if (k == 0 || r.chance(0.5)) newt(f, k);
    // structures and calculators
    const bool calcs = r.chance(0.5);
    int ncalc = 0, nstru = 0;
    if (calcs)
    {
        // scattering factors of dummies are usually unknown
        vector<string> st = syms;
        if (r.chance(0.5)) st.push_back("C");
        for (nstru = 0; nstru < 2; ++nstru)
        {
            add("s.new", {nstru, 1}, {r.uni(3.5, 5), r.uni(3.5, 5), r.uni(3.5, 5), 90, 90, 90});
            int n = r.range(2, 5);
            for (int j = 0; j < n; ++j)
                add("s.add", {nstru, j}, {r.uni(), r.uni(), r.uni(), 1, 0.003, 0.004, 0.005, 0, 0, 0}, {r.pick(st)});
        }
        ncalc = r.range(1, 2);
        for (int c = 0; c < ncalc; ++c)
        {
            int f = r.pick(fams);
            int kind = f == 0 ? r.pick(vector<int>{KPDF, KDPDF}) : f == 1 ? KOVL : KBVS;
            add("k.new", {c, kind, r.pick(vector<int>{1, 2, 2, 3})});
            add("k.attach", {c, r.below(NS)});
        }
    }
    const double pf = r.chance(0.5) ? 0.0 : r.pick(vector<double>{0.1, 0.4});
    const bool locales = r.chance(0.3);
    int n = thorough ? r.range(10, 100) : r.range(5, 40);
    auto sym = [&]() { return r.chance(0.15) ? r.pick(SYM) : r.pick(syms); };
    while (n--)
    {
        if (ncalc && r.chance(0.35)) { add("k.eval", {r.below(ncalc), r.below(nstru)}); if (r.chance(0.7)) continue; }
        if (ncalc && r.chance(0.06)) { add("k.attach", {r.below(ncalc), r.below(NS)}); continue; }
        int f = r.pick(fams), k = r.chance(0.7) ? 0 : r.below(NS);
        if (locales && r.chance(0.1)) add("locale", {r.below(seam::NLOCALE)});
        if (r.chance(pf)) add("f", {r.chance(0.2) ? 0 : 1, r.pick(vector<int>{1, 1, 3, 1000000}), long(exp(r.uni(0, log(25.))))});
        double u = r.uni();
        if (u < 0.05) add("clone", {f, r.below(NS), k});
        else if (u < 0.10) add("snap", {f, k});
        else if (u < 0.12) newt(f, k);
        else if (f == 0)
        {
            double v = r.uni();
            if (v < 0.35) add("sf.as", {k}, {}, {sym(), sym()});
            else if (v < 0.75) add("sf.val", {k}, {r.chance(0.1) ? 0.0 : r.uni(-2, 20), r.pick(QS)}, {sym(), sym()});
            else if (v < 0.92) add("sf.reset", {k}, {}, {sym()});
            else add("sf.all", {k});
        }
        else if (f == 1)
        {
            double v = r.uni();
            if (v < 0.35) add("rad.set", {k}, {r.uni(0.3, 2)}, {sym()});
            else if (v < 0.65)
            {
                bool bad = r.chance(0.3);
                string s;
                int m = r.range(bad ? 1 : 0, 4), ib = r.below(m);
                for (int j = 0; j < m; ++j)
                {
                    auto sp = [&]() { return string(r.chance(0.2) ? " " : ""); };
                    if (j) s += ",";
                    string val = strprintf("%.4g", r.uni(0.3, 2));
                    if (bad && j == ib) val = r.pick(vector<string>{"", "x", "-", "."});
                    s += sp() + sym() + sp() + (bad && j == ib && r.chance(0.4) ? "" : ":") + sp() + val + sp();
                }
                add(bad ? "rad.bad" : "rad.str", {k}, {}, {s});
            }
            else if (v < 0.8) add("rad.reset", {k}, {}, {sym()});
            else if (v < 0.87) add("rad.all", {k});
            else add("rad.def", {k}, {r.uni(0.3, 1.5)});
        }
        else
        {
            double v = r.uni();
            auto val = [&](const string& s) { return r.chance(0.1) ? 9 : r.chance(0.2) ? r.range(-3, 4) : s == "O2-" ? -2 : s == "Na1+" || s == "Na+" ? 1 : s == "Cl1-" ? -1 : s == "Ti4+" ? 4 : 0; };
            string a = sym(), b = sym();
            int va = val(a), vb = val(b);
            if (v < 0.4)
            {
                add("bv.set", {k, va, vb}, {r.uni(1, 3), r.uni(0.2, 0.5)}, {bare(a), bare(b), r.chance(0.5) ? "ref" : "long reference to an article"});
            }
            else if (v < 0.55) add("bv.self", {k, va, vb, r.chance(0.3)}, {}, {bare(a), bare(b)});
            else if (v < 0.72) add("bv.reset", {k, va, vb}, {}, {bare(a), bare(b)});
            else if (v < 0.78) add("bv.all", {k});
            else if (v < 0.95) add("bv.val", {k, r.range(-3, 4)}, {}, {a});
            else add("bv.valoff", {k});
        }
    }
    return sc;
}

static void run(const Scenario& sc, Ctx& ctx)
{
    T12 t(ctx);
    const Op* fault = 0;
    Comparer cmp;
    auto slot = [](long k) { return int(k < 0 ? 0 : k % NS); };
    for (size_t k = 0; k < sc.ops.size(); ++k)
    {
        const Op& op = sc.ops[k];
        t.where = strprintf("operation %zu %s", k, op.str().c_str());
        if (op.n == "f") { fault = &op; continue; }
        if (op.n == "locale") { seam::set_locale(labs(op.I(0)) % seam::NLOCALE); ctx.count("fault.locale"); continue; }
        const Op* f = fault;
        fault = 0;
        if (op.n.compare(0, 2, "s.") == 0) { t.w.apply(op); continue; }
        if (op.n == "k.new")
        {
            t.w.apply(Op("c.new", {op.I(0), op.I(1), op.I(2)}, {op.I(1) == KOVL || op.I(1) == KBVS ? 0 : 4.0}));
            t.att[op.I(0) & 15] = -1;
            continue;
        }
        if (op.n == "k.attach")
        {
            long c = op.I(0) & 15;
            if (!t.w.has(c) || !hastable(t, T12::family(t.w.meta[c].kind), slot(op.I(1)))) continue;
            t.att[c] = slot(op.I(1));
            t.attach(t.w, c, t.att[c], false);
            continue;
        }
        if (op.n == "k.eval")
        {
            long c = op.I(0) & 15;
            if (!t.w.has(c) || t.att[c] < 0 || !t.w.hass(op.I(1))) continue;
            const int kind = t.w.meta[c].kind;
            // electron scattering is infinite at Q=0, not usable in PDFCalculator
            if (kind == KPDF && t.sf[t.att[c]].type == "electron") continue;
            Outcome a = t.w.apply(Op("c.eval", {c, op.I(1)}));
            if (!a.exc.empty()) t.w.apply(Op("x.abandon", {c}));
            World f2;
            f2.stru = t.w.stru;
            f2.apply(Op("c.new", {c, kind, 1}, {kind == KOVL || kind == KBVS ? 0 : 4.0}));
            t.attach(f2, c, t.att[c], true);
            Outcome b = f2.apply(Op("c.eval", {c, op.I(1)}));
            a.what = b.what = "";
            string cls, d = cmp.compare(a, b, kind, cls);
            if (!cls.empty()) ctx.fail(cls, "%s: %s", t.where.c_str(), d.c_str());
            if (a.exc.empty())
            {
                a = t.w.apply(Op("q", {c, -1}));
                b = f2.apply(Op("q", {c, -1}));
                logOutcome(ctx, op, a);
                // evaluator type is deliberately different
                d = cmp.compare(a, b, kind, cls);
                if (!cls.empty()) ctx.fail(cls, "%s: calculator with a used table vs new table: %s", t.where.c_str(), d.c_str());
                ctx.count(strprintf("evaluations.%s", kindname(kind)));
            }
            continue;
        }
        // operations on tables
        auto done = []() { seam::alloc_disarm(); seam::cb_disarm(); };
        auto arm = [&]() { if (!f) return; if (f->I(0) == 0) seam::cb_arm(f->I(2), max(1L, f->I(1))); else seam::alloc_arm(f->I(2), max(1L, f->I(1))); };
        seam::g_cb.fired = seam::g_alloc.fired = 0;
        string exc;
        bool applied = true, mustfail = false, mayfail = false;
        function<void()> commit = []() { };
        const int s0 = slot(op.n == "clone" || op.n == "snap" || op.n == "new" ? op.I(1) : op.I(0));
        SF& sf = t.sf[s0];
        RD& rd = t.rd[s0];
        BV& bv = t.bv[s0];
        diffpy::eventticker::EventTicker tick0;
        const auto m0 = sf.m;
        if (sf.t) tick0 = sf.t->ticker();
        // arguments in locals, so that only the library allocates when armed
        const string a0 = op.S(0), a1 = op.S(1), a2 = op.S(2);
        try
        {
            if (op.n == "new")
            {
                if (op.I(0) == 0) { sf = SF(); sf.type = a0; sf.t = a0 == "sim" ? ScatteringFactorTablePtr(new SimSFT) : ScatteringFactorTable::createByType(a0); tick0 = sf.t->ticker(); }
                if (op.I(0) == 1) { rd = RD(); rd.t.reset(new SimRadii); }
                if (op.I(0) == 2) { bv = BV(); bv.t.reset(new BVParametersTable); }
            }
            else if (op.n == "clone")
            {
                const int s1 = slot(op.I(2));
                if (!hastable(t, op.I(0), s1)) applied = false;
                else if (op.I(0) == 0)
                {
                    arm(); auto x = t.sf[s1].t->clone(); done();
                    commit = [&t, s0, s1, x]() { t.sf[s0] = t.sf[s1]; t.sf[s0].t = x; };
                }
                else if (op.I(0) == 1)
                {
                    arm(); auto x = t.rd[s1].t->clone(); done();
                    commit = [&t, s0, s1, x]() { t.rd[s0] = t.rd[s1]; t.rd[s0].t = x; };
                }
                else
                {
                    arm(); BVParametersTablePtr x(new BVParametersTable(*t.bv[s1].t)); done();
                    commit = [&t, s0, s1, x]() { t.bv[s0] = t.bv[s1]; t.bv[s0].t = x; };
                }
            }
            else if (op.n == "snap")
            {
                if (!hastable(t, op.I(0), s0)) applied = false;
                else if (op.I(0) == 0) { ScatteringFactorTablePtr x; diffpy::serialization_fromstring(x, diffpy::serialization_tostring(sf.t)); sf.t = x; }
                else if (op.I(0) == 1) { AtomRadiiTablePtr x; diffpy::serialization_fromstring(x, diffpy::serialization_tostring(rd.t)); rd.t = x; }
                else { BVParametersTablePtr x; diffpy::serialization_fromstring(x, diffpy::serialization_tostring(bv.t)); bv.t = x; }
                if (applied) ctx.count("fault.crash-restart");
            }
            else if (op.n.compare(0, 3, "sf.") == 0)
            {
                if (!sf.t) applied = false;
                else if (op.n == "sf.as") { arm(); sf.t->setCustomAs(a0, a1); done(); commit = [&]() { sf.m[a0] = make_pair(a1, 1.0); }; }
                else if (op.n == "sf.val")
                {
                    double s = 0;
                    {
                        // model evaluated without faults
                        mustfail = !t.std1(sf.type, a1, op.D(1), s);
                        // nothing can be scaled from zero
                        if (!mustfail && s == 0.0) mustfail = true;
                    }
                    arm(); sf.t->setCustomAs(a0, a1, op.D(0), op.D(1)); done();
                    commit = [&, s]() { sf.m[a0] = make_pair(a1, op.D(0) / s); };
                }
                else if (op.n == "sf.reset") { arm(); sf.t->resetCustom(a0); done(); commit = [&]() { sf.m.erase(a0); }; }
                else if (op.n == "sf.all") { arm(); sf.t->resetAll(); done(); commit = [&]() { sf.m.clear(); }; }
            }
            else if (op.n.compare(0, 4, "rad.") == 0)
            {
                if (!rd.t) applied = false;
                else if (op.n == "rad.set") { arm(); rd.t->setCustom(a0, op.D(0)); done(); commit = [&]() { rd.m[a0] = op.D(0); }; }
                else if (op.n == "rad.bad") { mustfail = true; arm(); rd.t->fromString(a0); done(); }
                else if (op.n == "rad.str")
                {
                    arm(); rd.t->fromString(a0); done();
                    commit = [&]() {
                        string x;
                        for (char c : a0) if (!isspace(c)) x += c;
                        size_t p = 0;
                        while (p < x.size())
                        {
                            size_t e = min(x.find(',', p), x.size()), c = x.find(':', p);
                            rd.m[x.substr(p, c - p)] = atof(x.substr(c + 1, e - c - 1).c_str());
                            p = e + 1;
                        }
                    };
                }
                else if (op.n == "rad.reset") { arm(); rd.t->resetCustom(a0); done(); commit = [&]() { rd.m.erase(a0); }; }
                else if (op.n == "rad.all") { arm(); rd.t->resetAll(); done(); commit = [&]() { rd.m.clear(); }; }
                else if (op.n == "rad.def") { boost::dynamic_pointer_cast<ConstantRadiiTable>(rd.t)->setDefault(op.D(0)); commit = [&]() { rd.dflt = op.D(0); }; }
            }
            else if (op.n.compare(0, 3, "bv.") == 0)
            {
                auto ky = [&]() { return BV::key(a0, op.I(1), a1, op.I(2)); };
                if (!bv.t) applied = false;
                else if (op.n == "bv.set")
                {
                    arm(); bv.t->setCustom(a0, op.I(1), a1, op.I(2), op.D(0), op.D(1), a2); done();
                    commit = [&]() { bv.m[ky()] = {op.D(0), op.D(1), a2}; };
                }
                else if (op.n == "bv.self")
                {
                    // make the entry custom or standard again by reference to it
                    const BVParam& p = bv.t->lookup(a0, op.I(1), a1, op.I(2));
                    if (p.matom0.empty()) applied = false;
                    else
                    {
                        BV::K key = BV::key(p.matom0, p.mvalence0, p.matom1, p.mvalence1);
                        BV::V v = {p.mRo, p.mB, p.mref_id};
                        if (op.I(3)) { arm(); bv.t->resetCustom(p); done(); commit = [&t, s0, key]() { t.bv[s0].m.erase(key); }; }
                        else { arm(); bv.t->setCustom(p); done(); commit = [&t, s0, key, v]() { t.bv[s0].m[key] = v; }; }
                    }
                }
                else if (op.n == "bv.reset") { arm(); bv.t->resetCustom(a0, op.I(1), a1, op.I(2)); done(); commit = [&]() { bv.m.erase(ky()); }; }
                else if (op.n == "bv.all") { arm(); bv.t->resetAll(); done(); commit = [&]() { bv.m.clear(); }; }
                else if (op.n == "bv.val") { arm(); bv.t->setAtomValence(a0, op.I(1)); done(); commit = [&]() { bv.val[a0] = op.I(1); }; }
                else if (op.n == "bv.valoff") { arm(); bv.t->resetAtomValences(); done(); commit = [&]() { bv.val.clear(); }; }
            }
            else applied = false;
        }
        catch (const exception& e)
        {
            seam::alloc_disarm();
            seam::cb_disarm();
            exc = demangle(typeid(e).name());
        }
        catch (const seam::SimAlienFault&)
        {
            seam::alloc_disarm();
            seam::cb_disarm();
            exc = "seam::SimAlienFault";
        }
        long fired = f ? (f->I(0) == 0 ? seam::g_cb.fired : seam::g_alloc.fired) : 0;
        seam::alloc_disarm();
        seam::cb_disarm();
        if (!applied) continue;
        if (fired) ctx.count(f->I(0) == 0 ? "fault.callback.sft.standardLookup" : "fault.alloc");
        ctx.log("%s: %s", t.where.c_str(), exc.c_str());
        if (exc.empty() && mustfail) ctx.fail("bad-call-accepted", "%s", t.where.c_str());
        if (!exc.empty() && !mustfail && !fired) ctx.fail("unexpected-exception:" + exc, "%s", t.where.c_str());
        if (exc.empty())
        {
            commit();
            if (op.n == "new" || op.n == "clone" || op.n == "snap")
                for (long c = 0; c < 16; ++c)
                    if (t.w.has(c) && t.att[c] == s0 && T12::family(t.w.meta[c].kind) == op.I(0)) t.attach(t.w, c, s0, false);
        }
        if (sf.t && op.n.compare(0, 3, "sf.") == 0 && sf.m != m0 && !(sf.t->ticker() > tick0))
            ctx.fail("change-unnoticed", "%s: event clock of the table did not advance", t.where.c_str());
        t.check();
        ctx.feat(strprintf("%s/%d/%zu/%zu/%zu/%d", op.n.c_str(), !exc.empty(), t.sf[s0].m.size(), rd.m.size(), bv.m.size(), mustfail));
        if (!exc.empty() || sf.m.size() || rd.m.size() || bv.m.size()) ctx.count("nontrivial");
    }
}

static Register reg(Property{"C12", gen, run, preloadTables});

}   // namespace sim
