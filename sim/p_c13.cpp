// C13: registries of component types against maps of names, and named
// attributes of calculators against a model of the attached components.
#include "world.hpp"
#include <cmath>
#include <cfloat>
#include <limits>
#include <diffpy/srreal/ZeroBaseline.hpp>
#include <diffpy/srreal/QResolutionEnvelope.hpp>
#include <diffpy/srreal/StepCutEnvelope.hpp>
#include <diffpy/srreal/SphericalShapeEnvelope.hpp>
#include <diffpy/srreal/DebyeWallerPeakWidth.hpp>
#include <diffpy/srreal/CroppedGaussianProfile.hpp>

// f i=kind(0 callback, 1 allocation),nfail,at       next operation fails
// registries, fam 0 peak width, 1 profile, 2 baseline, 3 envelope, 4 scattering, 5 radii
// r.reg i=fam s=name,radiation     r.alias i=fam s=name,alias     r.dereg i=fam s=name
// r.new i=fam,slot s=name          r.set i=slot d=value           r.clone i=slot,src
// calculators and their components
// a.calc i=c,kind           a.copy i=c,src              a.drop i=c
// a.comp i=k,fam s=type     a.clone i=k,src             a.cset i=k d=v s=name
// a.att i=c,k               a.type i=c,fam s=type       a.null i=c,fam
// a.pop i=c,k               a.popt i=c s=type           a.clear i=c
// a.get i=c,k,fam s=type    a.set i=c d=v s=name
// a.stru i=c d=values s=names       structure that configures the calculator
// a.snap                    all objects continue from a snapshot
// a.snap1 i=c               one calculator continues from a snapshot

namespace sim {

// envelope with an attribute of any name
class AttrEnv : public PDFEnvelope
{
    public:
        std::string tp, nm;
        double x = 0.25;
        AttrEnv() { }
        AttrEnv(const std::string& t, const std::string& n) : tp(t), nm(n) { reg(); }
        void reg() { registerDoubleAttribute(nm, this, &AttrEnv::get, &AttrEnv::set); }
        double get() const { return x; }
        void set(double v) { x = v; }
        PDFEnvelopePtr create() const override { seam::cbpoint("create"); return PDFEnvelopePtr(new AttrEnv(tp, nm)); }
        PDFEnvelopePtr clone() const override { return PDFEnvelopePtr(new AttrEnv(*this)); }
        const std::string& type() const override { return tp; }
        double operator()(const double&) const override { return 1.0; }
    private:
        friend class boost::serialization::access;
        template <class A> void serialize(A& ar, const unsigned int)
        {
            ar & boost::serialization::base_object<PDFEnvelope>(*this);
            ar & tp & nm & x;
            if (A::is_loading::value) reg();
        }
};

}
BOOST_CLASS_EXPORT(sim::AttrEnv)

namespace sim {
using namespace std;

static const vector<vector<string>> ATTRENV = {{"dupscale", "scale"}, {"ownrmax", "rmax"}, {"extra", "sim_extra"}, {"dupdelta", "delta2"}};

// prototypes for registries
#define PROTO(NAME, BASE, PTR, EXTRA) \
struct NAME : BASE { string tp, rt; \
    NAME(const string& t, const string& r) : tp(t), rt(r) { } \
    PTR create() const override { seam::cbpoint("create"); return PTR(new NAME(tp, rt)); } \
    PTR clone() const override { seam::cbpoint("clone"); return PTR(new NAME(*this)); } \
    const string& type() const override { return tp; } EXTRA };
PROTO(RPw, ConstantPeakWidth, PeakWidthModelPtr, )
PROTO(RPp, GaussianProfile, PeakProfilePtr, )
PROTO(RBl, LinearBaseline, PDFBaselinePtr, )
PROTO(REv, ScaleEnvelope, PDFEnvelopePtr, )
PROTO(RSf, SFTXray, ScatteringFactorTablePtr, const string& radiationType() const override { return rt; })
PROTO(RRd, ConstantRadiiTable, AtomRadiiTablePtr, )

namespace {

typedef set<string> Names;

// one registry and its model
struct Fam
{
    string name;
    map<string,int> m;          // name or alias to prototype
    map<int,string> proto;      // prototype to its type
    function<void(const string&, const string&)> reg;
    function<bool(const string&, const string&)> alias;
    function<int(const string&)> dereg;
    function<boost::shared_ptr<void>(const string&, string&)> create;   // gives type
    function<boost::shared_ptr<void>(const boost::shared_ptr<void>&)> clone;
    function<string(const boost::shared_ptr<void>&)> type;
    function<bool(const string&)> isreg;
    function<map<string,string>()> aliased;
    function<Names()> registered;
    function<double(const boost::shared_ptr<void>&)> get;
    function<void(const boost::shared_ptr<void>&, double)> put;
};

template <class B, class H> Fam makefam(const string& nm, function<double(B&)> get, function<void(B&, double)> put)
{
    typedef boost::shared_ptr<B> P;
    Fam f;
    f.name = nm;
    f.reg = [](const string& t, const string& r) { H h(t, r); h.registerThisType(); };
    f.alias = [](const string& t, const string& a) { return B::aliasType(t, a); };
    f.dereg = [](const string& t) { return B::deregisterType(t); };
    f.create = [](const string& t, string& tp) { P p = B::createByType(t); tp = p->type(); return boost::shared_ptr<void>(p, p.get()); };
    auto cast = [](const boost::shared_ptr<void>& p) { return static_cast<B*>(p.get()); };
    f.clone = [cast](const boost::shared_ptr<void>& p) { P q = cast(p)->clone(); return boost::shared_ptr<void>(q, q.get()); };
    f.type = [cast](const boost::shared_ptr<void>& p) { return cast(p)->type(); };
    f.isreg = [](const string& t) { return B::isRegisteredType(t); };
    f.aliased = []() { return B::getAliasedTypes(); };
    f.registered = []() { return B::getRegisteredTypes(); };
    f.get = [cast, get](const boost::shared_ptr<void>& p) { return get(*cast(p)); };
    f.put = [cast, put](const boost::shared_ptr<void>& p, double v) { put(*cast(p), v); };
    int id = 0;
    for (auto& t : f.registered()) { f.proto[id] = t; if (f.isreg(t)) f.m[t] = id; ++id; }
    for (auto& kv : f.aliased()) for (auto& pr : f.proto) if (pr.second == kv.second) f.m[kv.first] = pr.first;
    return f;
}

vector<Fam> families()
{
    vector<Fam> rv;
    auto attr = [](const char* n) { return [n](diffpy::Attributes& a) { return a.hasDoubleAttr(n) ? a.getDoubleAttr(n) : 0.0; }; };
    auto sattr = [](const char* n) { return [n](diffpy::Attributes& a, double v) { if (a.hasDoubleAttr(n)) a.setDoubleAttr(n, v); }; };
    auto g0 = attr("width"); auto s0 = sattr("width");
    rv.push_back(makefam<PeakWidthModel, RPw>("pw", g0, s0));
    rv.push_back(makefam<PeakProfile, RPp>("pp", attr("peakprecision"), sattr("peakprecision")));
    rv.push_back(makefam<PDFBaseline, RBl>("bl", attr("slope"), sattr("slope")));
    rv.push_back(makefam<PDFEnvelope, REv>("ev", attr("scale"), sattr("scale")));
    rv.push_back(makefam<ScatteringFactorTable, RSf>("sf",
                [](ScatteringFactorTable& t) { return double(t.getCustomSymbols().size()); },
                [](ScatteringFactorTable& t, double v) { t.resetAll(); for (int k = 0; k < v; ++k) t.setCustomAs("q" + to_string(k), "C"); }));
    rv.push_back(makefam<AtomRadiiTable, RRd>("rd",
                [](AtomRadiiTable& t) { return double(t.getAllCustom().size()); },
                [](AtomRadiiTable& t, double v) { t.resetAll(); for (int k = 0; k < v; ++k) t.setCustom("q" + to_string(k), k + 1.0); }));
    return rv;
}

const vector<string> RN = {"a", "b", "c", "d", "e", "f"};

struct Fault
{
    const Op* f;
    Fault(const Op* op) : f(op) { }
    void arm() { seam::g_cb.fired = seam::g_alloc.fired = 0; if (!f) return; if (f->I(0) == 0) seam::cb_arm(f->I(2), max(1L, f->I(1))); else seam::alloc_arm(f->I(2), max(1L, f->I(1))); }
    long off(Ctx& ctx)
    {
        seam::alloc_disarm();
        seam::cb_disarm();
        long n = f ? (f->I(0) == 0 ? seam::g_cb.fired : seam::g_alloc.fired) : 0;
        if (n) ctx.count(f->I(0) == 0 ? "fault.callback.create" : "fault.alloc");
        return n;
    }
};

struct RegRun
{
    Ctx& ctx;
    vector<Fam> fams = families();
    struct Obj { boost::shared_ptr<void> p; int fam = -1; string tp; double v = 0; };
    vector<Obj> obj = vector<Obj>(6);
    int nextid = 100;
    string where;
    RegRun(Ctx& c) : ctx(c) { }

    void check()
    {
        for (Fam& f : fams)
        {
            map<string,string> al;
            Names rg;
            for (auto& kv : f.m)
            {
                const string& t = f.proto[kv.second];
                if (kv.first != t) al[kv.first] = t;
                rg.insert(t);
            }
            if (f.aliased() != al) ctx.fail("aliased-types:" + f.name, "%s: aliases differ from the model", where.c_str());
            if (f.registered() != rg) ctx.fail("registered-types:" + f.name, "%s: registered types differ from the model", where.c_str());
            Names all(RN.begin(), RN.end());
            for (auto& kv : f.m) all.insert(kv.first);
            for (auto& n : all)
            {
                if (f.isreg(n) != bool(f.m.count(n))) ctx.fail("is-registered:" + f.name, "%s: '%s' registered %d, expected %d", where.c_str(), n.c_str(), f.isreg(n), int(f.m.count(n)));
                string tp, exc;
                try { f.create(n, tp); }
                catch (const invalid_argument&) { exc = "invalid_argument"; }
                if (f.m.count(n))
                {
                    if (!exc.empty() || tp != f.proto[f.m[n]])
                        ctx.fail("create:" + f.name, "%s: '%s' creates '%s' %s, expected '%s'", where.c_str(), n.c_str(), tp.c_str(), exc.c_str(), f.proto[f.m[n]].c_str());
                }
                else if (exc.empty()) ctx.fail("create:" + f.name, "%s: unknown type '%s' was created", where.c_str(), n.c_str());
            }
        }
        for (size_t k = 0; k < obj.size(); ++k)
        {
            if (!obj[k].p) continue;
            Fam& f = fams[obj[k].fam];
            if (f.type(obj[k].p) != obj[k].tp || f.get(obj[k].p) != obj[k].v)
                ctx.fail("objects:" + f.name, "%s: object %zu has changed", where.c_str(), k);
        }
        ctx.count("checked");
    }

    void apply(const Op& op, const Op* flt)
    {
        Fault ft(flt);
        Fam& f = fams[((op.I(0) % 6) + 6) % 6];
        auto slot = [&](long k) { return ((k % 6) + 6) % 6; };
        const string a0 = op.S(0), a1 = op.S(1);
        string exc;
        long fired = 0;
        bool mustfail = false;
        function<void()> commit = []() { };
        try
        {
            if (op.n == "r.reg")
            {
                // the scattering factor tables get an alias by their radiation type, too
                const bool sf = f.name == "sf";
                mustfail = f.m.count(a0) || (sf && f.m.count(a1) && a1 != a0);
                ft.arm(); f.reg(a0, a1); fired = ft.off(ctx);
                commit = [&]() { int id = nextid++; f.proto[id] = a0; f.m[a0] = id; if (sf) f.m[a1] = id; };
            }
            else if (op.n == "r.alias")
            {
                mustfail = !f.m.count(a0) || (f.m.count(a1) && f.m[a1] != f.m[a0]);
                ft.arm(); f.alias(a0, a1); fired = ft.off(ctx);
                commit = [&]() { f.m[a1] = f.m[a0]; };
            }
            else if (op.n == "r.dereg")
            {
                // objects of the library types are left alone
                if (f.m.count(a0) && f.m[a0] < 100 && !op.I(1)) return;
                int n = 0;
                if (f.m.count(a0)) for (auto& kv : f.m) n += kv.second == f.m[a0];
                ft.arm(); int k = f.dereg(a0); fired = ft.off(ctx);
                if (k != n) ctx.fail("deregister-count:" + f.name, "%s: %d names removed, expected %d", where.c_str(), k, n);
                commit = [&]() {
                    if (!f.m.count(a0)) return;
                    int id = f.m[a0];
                    for (auto it = f.m.begin(); it != f.m.end(); ) { if (it->second == id) it = f.m.erase(it); else ++it; }
                };
            }
            else if (op.n == "r.new")
            {
                mustfail = !f.m.count(a0);
                string tp;
                ft.arm(); auto p = f.create(a0, tp); fired = ft.off(ctx);
                commit = [&, p, tp]() {
                    Obj o; o.p = p; o.fam = &f - &fams[0]; o.tp = f.proto[f.m[a0]]; o.v = f.get(p);
                    // defaults of a new object are those of any other new object
                    string t2;
                    double dflt = f.get(f.create(a0, t2));
                    if (o.v != dflt) ctx.fail("created-state:" + f.name, "%s: %g vs %g", where.c_str(), o.v, dflt);
                    static map<string,double> first;
                    auto it = first.insert(make_pair(f.name + "/" + to_string(f.m[a0]), o.v)).first;
                    if (it->second != o.v) ctx.fail("created-state:" + f.name, "%s: %g, formerly %g", where.c_str(), o.v, it->second);
                    obj[slot(op.I(1))] = o;
                };
            }
            else if (op.n == "r.set")
            {
                Obj& o = obj[slot(op.I(0))];
                if (!o.p) return;
                Fam& g = fams[o.fam];
                g.put(o.p, op.D(0));
                commit = [&o, &g]() { o.v = g.get(o.p); };
            }
            else if (op.n == "r.clone")
            {
                Obj& o = obj[slot(op.I(1))];
                if (!o.p) return;
                auto p = fams[o.fam].clone(o.p);
                commit = [&, p]() { Obj x = o; x.p = p; obj[slot(op.I(0))] = x; };
            }
            else return;
        }
        catch (const Viol&) { throw; }
        catch (const exception& e) { fired = ft.off(ctx); exc = demangle(typeid(e).name()); }
        catch (const seam::SimAlienFault&) { fired = ft.off(ctx); exc = "seam::SimAlienFault"; }
        ctx.log("%s: %s", where.c_str(), exc.c_str());
        if (exc.empty() && mustfail) ctx.fail("bad-call-accepted:" + f.name, "%s", where.c_str());
        if (!exc.empty() && !mustfail && !fired) ctx.fail("call-refused:" + f.name, "%s: %s", where.c_str(), exc.c_str());
        if (exc.empty()) commit();
        check();
        ctx.feat(strprintf("%s/%s/%d/%zu/%zu", op.n.c_str(), f.name.c_str(), !exc.empty(), f.m.size(), f.proto.size()));
        if (mustfail || fired || op.n == "r.dereg") ctx.count("nontrivial");
    }
};

// --- attributes of calculators ---------------------------------------------------

struct Comp
{
    int fam = 0;
    PeakWidthModelPtr pw; PeakProfilePtr pp; PDFBaselinePtr bl; PDFEnvelopePtr ev;
    diffpy::Attributes* at() const
    {
        if (pw) return pw.get();
        if (pp) return pp.get();
        if (bl) return bl.get();
        return ev.get();
    }
    string type() const { return pw ? pw->type() : pp ? pp->type() : bl ? bl->type() : ev->type(); }
    // values by direct methods
    map<string,double> read() const
    {
        map<string,double> m;
        if (auto x = dynamic_cast<ConstantPeakWidth*>(pw.get()))
        {
            m["width"] = x->getWidth();
            const double u = pow(x->getWidth(), 2) / (16 * M_LN2) ;
            m["uisowidth"] = u;
            m["bisowidth"] = 8 * M_PI * M_PI * u;
        }
        if (auto x = dynamic_cast<JeongPeakWidth*>(pw.get()))
        {
            m["delta1"] = x->getDelta1(); m["delta2"] = x->getDelta2(); m["qbroad"] = x->getQbroad();
            m["qbroad_seperable"] = x->getQbroad_seperable();
        }
        if (pp) m["peakprecision"] = pp->getPrecision();
        if (auto x = dynamic_cast<LinearBaseline*>(bl.get())) m["slope"] = x->getSlope();
        if (auto x = dynamic_cast<ScaleEnvelope*>(ev.get())) m["scale"] = x->getScale();
        if (auto x = dynamic_cast<QResolutionEnvelope*>(ev.get())) m["qdamp"] = x->getQdamp();
        if (auto x = dynamic_cast<StepCutEnvelope*>(ev.get())) m["stepcut"] = x->getStepCut();
        if (auto x = dynamic_cast<SphericalShapeEnvelope*>(ev.get())) m["spdiameter"] = x->getSPDiameter();
        if (auto x = dynamic_cast<AttrEnv*>(ev.get())) m[x->nm] = x->x;
        return m;
    }
    template <class A> void serialize(A& ar, const unsigned int) { ar & fam & pw & pp & bl & ev; }
};

struct Calc
{
    PQPtr p;
    int kind = -1;
    int pw = -1, pp = -1, bl = -1;
    map<string,int> ev;
    double rawqmax = 0;         // PDFCalculator
    set<int> comps() const { set<int> r; for (int k : {pw, pp, bl}) if (k >= 0) r.insert(k); for (auto& kv : ev) r.insert(kv.second); return r; }
};

bool same(double a, double b) { return a == b || fabs(a - b) <= 1e-12 * max(fabs(a), fabs(b)); }

map<string,double> ownread(const PairQuantity& q, int kind)
{
    map<string,double> m;
    m["rmin"] = q.getRmin();
    m["rmax"] = q.getRmax();
    if (auto x = dynamic_cast<const PDFCalculator*>(&q))
    {
        m["rstep"] = x->getRstep(); m["qmin"] = x->getQmin(); m["qmax"] = x->getQmax(); m["qstep"] = x->getQstep();
        m["maxextension"] = x->getMaxExtension(); m["extendedrmin"] = x->getExtendedRmin(); m["extendedrmax"] = x->getExtendedRmax();
    }
    if (auto x = dynamic_cast<const DebyePDFCalculator*>(&q))
    {
        m["rstep"] = x->getRstep(); m["qmin"] = x->getQmin(); m["qmax"] = x->getQmax(); m["qstep"] = x->getQstep();
        m["maxextension"] = x->getMaxExtension();
        m["extendedrmin"] = x->getDoubleAttr("extendedrmin"); m["extendedrmax"] = x->getDoubleAttr("extendedrmax");
    }
    if (auto x = dynamic_cast<const BaseDebyeSum*>(&q)) m["debyeprecision"] = x->getDebyePrecision();
    if (auto x = dynamic_cast<const OverlapCalculator*>(&q)) m["rmaxused"] = x->getRmaxUsed();
    if (auto x = dynamic_cast<const BVSCalculator*>(&q)) { m["valenceprecision"] = x->getValencePrecision(); m["rmaxused"] = x->getRmaxUsed(); }
    return m;
}

bool readonly(int kind, const string& n)
{
    return n == "extendedrmin" || n == "extendedrmax" || n == "rmaxused" || (n == "qstep" && kind == KPDF);
}

struct AttrRun
{
    Ctx& ctx;
    map<int,Comp> comps;
    int nextid = 1;
    vector<int> slot = vector<int>(6, 0);
    vector<Calc> calc = vector<Calc>(4);
    string where;
    // last known values
    map<int, map<string,double>> cval;
    vector<map<string,double>> own = vector<map<string,double>>(4);
    AttrRun(Ctx& c) : ctx(c) { }

    PDFEnvelopeOwner* evo(Calc& c) { return dynamic_cast<PDFEnvelopeOwner*>(c.p.get()); }
    PeakWidthModelOwner* pwo(Calc& c) { return dynamic_cast<PeakWidthModelOwner*>(c.p.get()); }
    PDFCalculator* pdf(Calc& c) { return dynamic_cast<PDFCalculator*>(c.p.get()); }
    bool exposed(const Calc& c) const { return c.kind == KPDF || c.kind == KDPDF; }

    int addcomp(Comp x) { int id = nextid++; comps[id] = x; cval[id] = x.read(); return id; }
    Comp wrap(PeakWidthModelPtr p) { Comp c; c.fam = 0; c.pw = p; return c; }
    Comp wrap(PeakProfilePtr p) { Comp c; c.fam = 1; c.pp = p; return c; }
    Comp wrap(PDFBaselinePtr p) { Comp c; c.fam = 2; c.bl = p; return c; }
    Comp wrap(PDFEnvelopePtr p) { Comp c; c.fam = 3; c.ev = p; return c; }

    static Comp make(int fam, const string& tp)
    {
        Comp c;
        c.fam = fam;
        if (fam == 0) c.pw = PeakWidthModel::createByType(tp);
        else if (fam == 1) c.pp = PeakProfile::createByType(tp);
        else if (fam == 2) c.bl = PDFBaseline::createByType(tp);
        else
        {
            for (auto& t : ATTRENV) if (t[0] == tp) { c.ev.reset(new AttrEnv(t[0], t[1])); return c; }
            c.ev = PDFEnvelope::createByType(tp);
        }
        return c;
    }

    // adopt the components of a new calculator
    void adopt(Calc& c)
    {
        if (auto x = pwo(c)) c.pw = addcomp(wrap(x->getPeakWidthModel()));
        if (auto x = pdf(c)) { c.pp = addcomp(wrap(x->getPeakProfile())); c.bl = addcomp(wrap(x->getBaseline())); }
        c.ev.clear();
        if (auto x = evo(c)) for (auto& t : x->usedEnvelopeTypes()) c.ev[t] = addcomp(wrap(x->getEnvelopeByType(t)));
    }

    map<string,int> counts(const Calc& c, int ci)
    {
        map<string,int> n;
        for (auto& kv : own[ci]) ++n[kv.first];
        if (exposed(c)) for (int id : c.comps()) for (auto& kv : cval[id]) ++n[kv.first];
        return n;
    }

    void check()
    {
        // values of components and calculators from their own methods
        for (auto& kv : comps)
        {
            auto m = kv.second.read();
            for (auto& x : cval[kv.first])
                if (!same(m[x.first], x.second))
                    ctx.fail("component-value:" + x.first, "%s: component %s %s is %.17g, expected %.17g", where.c_str(), kv.second.type().c_str(), x.first.c_str(), m[x.first], x.second);
        }
        for (int ci = 0; ci < 4; ++ci)
        {
            Calc& c = calc[ci];
            if (!c.p) continue;
            // identity of attached objects
            auto ident = [&](const void* p, int id, const char* what) {
                const void* q = comps[id].fam == 0 ? (void*) comps[id].pw.get() : comps[id].fam == 1 ? (void*) comps[id].pp.get() : comps[id].fam == 2 ? (void*) comps[id].bl.get() : (void*) comps[id].ev.get();
                if (p != q) ctx.fail(string("attached:") + what, "%s: calculator %d has another %s attached", where.c_str(), ci, what);
            };
            if (auto x = pwo(c)) ident(x->getPeakWidthModel().get(), c.pw, "width");
            if (auto x = pdf(c)) { ident(x->getPeakProfile().get(), c.pp, "profile"); ident(x->getBaseline().get(), c.bl, "baseline"); }
            if (auto x = evo(c))
            {
                Names t;
                for (auto& kv : c.ev) t.insert(kv.first);
                if (x->usedEnvelopeTypes() != t) ctx.fail("envelope-types", "%s: calculator %d", where.c_str(), ci);
                for (auto& kv : c.ev) ident(x->getEnvelopeByType(kv.first).get(), kv.second, "envelope");
                for (const char* t0 : {"scale", "qresolution", "stepcut", "sphericalshape", "nothing"})
                {
                    if (t.count(t0)) continue;
                    bool ok = false;
                    try { x->getEnvelopeByType(t0); } catch (const invalid_argument&) { ok = true; }
                    if (!ok || x->usedEnvelopeTypes() != t) ctx.fail("envelope-absent", "%s: calculator %d gives envelope %s", where.c_str(), ci, t0);
                }
            }
            auto m = ownread(*c.p, c.kind);
            for (auto& x : own[ci])
                if (!same(m[x.first], x.second))
                    ctx.fail("own-value:" + x.first, "%s: calculator %d %s is %.17g, expected %.17g", where.c_str(), ci, x.first.c_str(), m[x.first], x.second);
            // named access
            auto n = counts(c, ci);
            Names all, wr, got = c.p->namesOfDoubleAttributes(), gotw = c.p->namesOfWritableDoubleAttributes();
            for (auto& kv : n) { all.insert(kv.first); if (kv.second > 1 || !readonly(c.kind, kv.first)) wr.insert(kv.first); }
            if (all != got) ctx.fail("attribute-names", "%s: calculator %d", where.c_str(), ci);
            if (wr != gotw) ctx.fail("writable-names", "%s: calculator %d", where.c_str(), ci);
            for (auto& kv : n)
            {
                if (!c.p->hasDoubleAttr(kv.first)) ctx.fail("attribute-missing:" + kv.first, "%s: calculator %d", where.c_str(), ci);
                if (kv.second > 1)
                {
                    bool ok = false;
                    try { c.p->getDoubleAttr(kv.first); } catch (const logic_error&) { ok = true; }
                    if (!ok) ctx.fail("ambiguous-read:" + kv.first, "%s: calculator %d", where.c_str(), ci);
                    continue;
                }
                double e = 0;
                if (own[ci].count(kv.first)) e = own[ci][kv.first];
                else for (int id : c.comps()) if (cval[id].count(kv.first)) e = cval[id][kv.first];
                double v = c.p->getDoubleAttr(kv.first);
                if (!same(v, e)) ctx.fail("attribute-value:" + kv.first, "%s: calculator %d attribute %s reads %.17g, expected %.17g", where.c_str(), ci, kv.first.c_str(), v, e);
            }
            for (const char* u : {"nothing", "sim_extra", "width", "stepcut", "rstep", "slope"})
            {
                if (n.count(u)) continue;
                bool ok = !c.p->hasDoubleAttr(u);
                try { c.p->getDoubleAttr(u); ok = false; } catch (const diffpy::attributes::DoubleAttributeError&) { }
                if (!ok) ctx.fail("attribute-unknown", "%s: calculator %d has attribute %s", where.c_str(), ci, u);
            }
            ctx.count("checked", n.size());
        }
    }

    // refresh values that may change as a consequence of changing the calculator
    void dependents(int ci, bool structure)
    {
        Calc& c = calc[ci];
        auto m = ownread(*c.p, c.kind);
        for (const char* n : {"extendedrmin", "extendedrmax", "rmaxused", "qstep"})
            if (own[ci].count(n)) own[ci][n] = m[n];
        if (c.kind == KPDF && comps[c.bl].type() == "linear") cval[c.bl] = comps[c.bl].read();
        // Q-step of the Debye calculator depends on the peak width model
        (void) structure;
    }

    // extended range of the Debye calculators follows from their peak widths
    void refreshranges()
    {
        for (int ci = 0; ci < 4; ++ci)
        {
            if (!calc[ci].p || calc[ci].kind != KDPDF) continue;
            own[ci]["extendedrmin"] = calc[ci].p->getDoubleAttr("extendedrmin");
            own[ci]["extendedrmax"] = calc[ci].p->getDoubleAttr("extendedrmax");
        }
        for (int ci = 0; ci < 4; ++ci)
        {
            if (!calc[ci].p || calc[ci].kind != KPDF) continue;
            auto m = ownread(*calc[ci].p, KPDF);
            for (const char* n : {"extendedrmin", "extendedrmax", "qstep"}) own[ci][n] = m[n];
        }
    }

    template <class T> static PQPtr copyof(const PairQuantity& q) { return PQPtr(new T(dynamic_cast<const T&>(q))); }

    struct Archive
    {
        vector<PQPtr> p; vector<Comp> s;
        template <class A> void serialize(A& ar, const unsigned int) { ar & p & s; }
    };

    void setcomp(int& id, Comp x, map<int,int>& remap)
    {
        // the same component must come out shared
        if (remap.count(id))
        {
            int nid = remap[id];
            id = nid;
            return;     // identity is verified by check()
        }
        int nid = addcomp(x);
        remap[id] = nid;
        id = nid;
    }

    void retarget(Calc& c, map<int,int>& remap)
    {
        if (auto x = pwo(c)) setcomp(c.pw, wrap(x->getPeakWidthModel()), remap);
        if (auto x = pdf(c)) { setcomp(c.pp, wrap(x->getPeakProfile()), remap); setcomp(c.bl, wrap(x->getBaseline()), remap); }
        if (auto x = evo(c))
            for (auto& kv : c.ev)
            {
                if (!x->usedEnvelopeTypes().count(kv.first)) ctx.fail("envelope-types", "%s: envelope %s lost", where.c_str(), kv.first.c_str());
                setcomp(kv.second, wrap(x->getEnvelopeByType(kv.first)), remap);
            }
    }

    void purge()
    {
        set<int> used(slot.begin(), slot.end());
        for (auto& c : calc) if (c.p) for (int id : c.comps()) used.insert(id);
        for (auto it = comps.begin(); it != comps.end(); )
        {
            if (used.count(it->first)) { ++it; continue; }
            cval.erase(it->first);
            it = comps.erase(it);
        }
    }

    void apply(const Op& op, const Op* flt)
    {
        Fault ft(flt);
        const int ci = ((op.I(0) % 4) + 4) % 4;
        auto sl = [](long k) { return int(((k % 6) + 6) % 6); };
        const string a0 = op.S(0);
        Calc& c = calc[ci];
        const bool oncalc = op.n == "a.att" || op.n == "a.type" || op.n == "a.null" || op.n == "a.pop" || op.n == "a.popt" ||
            op.n == "a.clear" || op.n == "a.get" || op.n == "a.set" || op.n == "a.stru" || op.n == "a.snap1" || op.n == "a.drop";
        if (oncalc && !c.p) return;
        string exc;
        long fired = 0;
        bool mustfail = false, mayfail = false;
        function<void()> commit = []() { };
        const map<int, map<string,double>> cval0 = cval;
        bool maycommit = false;     // failed call may have had its effect
        bool resync = false;
        try
        {
            if (op.n == "a.calc")
            {
                Calc x;
                x.kind = op.I(1);
                switch (op.I(1))
                {
                    case KPDF: x.p.reset(new PDFCalculator); x.rawqmax = numeric_limits<double>::infinity(); break;
                    case KDPDF: x.p.reset(new DebyePDFCalculator); break;
                    case KDSUM: x.p.reset(new BaseDebyeSum); break;
                    case KBOND: x.p.reset(new BondCalculator); break;
                    case KOVL: x.p.reset(new OverlapCalculator); break;
                    case KBVS: x.p.reset(new BVSCalculator); break;
                    default: return;
                }
                calc[ci] = x;
                adopt(calc[ci]);
                own[ci] = ownread(*x.p, x.kind);
            }
            else if (op.n == "a.copy")
            {
                const int s = ((op.I(1) % 4) + 4) % 4;
                if (!calc[s].p || s == ci) return;
                Calc x = calc[s];
                switch (x.kind)
                {
                    case KPDF: x.p = copyof<PDFCalculator>(*x.p); break;
                    case KDPDF: x.p = copyof<DebyePDFCalculator>(*x.p); break;
                    case KDSUM: x.p = copyof<BaseDebyeSum>(*x.p); break;
                    case KBOND: x.p = copyof<BondCalculator>(*x.p); break;
                    case KOVL: x.p = copyof<OverlapCalculator>(*x.p); break;
                    case KBVS: x.p = copyof<BVSCalculator>(*x.p); break;
                }
                calc[ci] = x;
                own[ci] = own[s];
            }
            else if (op.n == "a.drop") c = Calc();
            else if (op.n == "a.comp")
            {
                slot[sl(op.I(0))] = addcomp(make(max(0L, min(3L, op.I(1))), a0));
            }
            else if (op.n == "a.clone")
            {
                int s = slot[sl(op.I(1))];
                if (!s) return;
                const Comp& x = comps[s];
                Comp y;
                ft.arm();
                if (x.pw) y = wrap(x.pw->clone());
                else if (x.pp) y = wrap(x.pp->clone());
                else if (x.bl) y = wrap(x.bl->clone());
                else y = wrap(x.ev->clone());
                fired = ft.off(ctx);
                map<string,double> v = cval[s];
                int id = addcomp(y);
                cval[id] = v;       // equal to the source by the model
                slot[sl(op.I(0))] = id;
            }
            else if (op.n == "a.cset" || op.n == "a.set")
            {
                int id = 0;
                bool isown = false;
                int cnt = 0;
                diffpy::Attributes* at;
                if (op.n == "a.cset")
                {
                    id = slot[sl(op.I(0))];
                    if (!id) return;
                    at = comps[id].at();
                    cnt = int(cval[id].count(a0));
                }
                else
                {
                    at = c.p.get();
                    cnt = counts(c, ci)[a0];
                    isown = own[ci].count(a0);
                    if (!isown && exposed(c)) for (int k : c.comps()) if (cval[k].count(a0)) id = k;
                }
                const double v = op.D(0);
                const int kd = c.kind;
                const bool pd = kd == KPDF || kd == KDPDF;
                mustfail = cnt != 1;
                if (!mustfail && isown)
                {
                    if (readonly(kd, a0)) mustfail = true;
                    else if (a0 == "rmin" || a0 == "rmax") mustfail = pd && v < 0;
                    else if (a0 == "qmin" || a0 == "qmax" || a0 == "maxextension") mustfail = v < 0;
                    else if (a0 == "rstep" || a0 == "qstep" || a0 == "valenceprecision") mustfail = !(v > diffpy::mathutils::SQRT_DOUBLE_EPS);
                    // Q-step of zero is invalid
                    if (kd == KDPDF && a0 == "qmax" && v == 0) mayfail = true;
                }
                commit = [&, id, isown, v, ci]() {
                    if (isown)
                    {
                        own[ci][a0] = v;
                        if (c.kind == KPDF)
                        {
                            if (a0 == "qmax") c.rawqmax = v > 0 ? v : numeric_limits<double>::infinity();
                            own[ci]["qmax"] = min(c.rawqmax, M_PI / own[ci]["rstep"]);
                        }
                        if (c.kind == KDPDF && a0 == "qstep" && dynamic_cast<DebyePDFCalculator&>(*c.p).getQstep() > v * (1 + 1e-12))
                            ctx.fail("own-value:qstep", "%s", where.c_str());
                        dependents(ci, false);
                        return;
                    }
                    auto& m = cval[id];
                    if (a0 == "width" || a0 == "uisowidth" || a0 == "bisowidth")
                    {
                        // these are three views of the same value
                        double w = a0 == "width" ? v : a0 == "uisowidth" ? 4 * sqrt(M_LN2 * v) : 4 * sqrt(M_LN2 * v / (8 * M_PI * M_PI));
                        m["width"] = w;
                        m["uisowidth"] = w * w / (16 * M_LN2);
                        m["bisowidth"] = 8 * M_PI * M_PI * m["uisowidth"];
                    }
                    else if (a0 == "peakprecision" && comps[id].type() != "none") m[a0] = max(v, double(diffpy::mathutils::DOUBLE_EPS));
                    else m[a0] = v;
                };
                if (!isown || op.n == "a.cset") { if (flt && flt->I(0) == 1) maycommit = true; ft.arm(); }
                at->setDoubleAttr(a0, v);
                fired = ft.off(ctx);
            }
            else if (op.n == "a.att")
            {
                int id = slot[sl(op.I(1))];
                if (!id) return;
                Comp& x = comps[id];
                if (x.fam == 0 && pwo(c)) { ft.arm(); pwo(c)->setPeakWidthModel(x.pw); commit = [&c, id]() { c.pw = id; }; }
                else if (x.fam == 1 && pdf(c)) { ft.arm(); pdf(c)->setPeakProfile(x.pp); commit = [&c, id]() { c.pp = id; }; }
                else if (x.fam == 2 && pdf(c)) { ft.arm(); pdf(c)->setBaseline(x.bl); commit = [&c, id]() { c.bl = id; }; }
                else if (x.fam == 3 && evo(c)) { string t = x.type(); ft.arm(); evo(c)->addEnvelope(x.ev); fired = ft.off(ctx); commit = [&c, id, t]() { c.ev[t] = id; }; }
                else return;
                fired = ft.off(ctx);
            }
            else if (op.n == "a.null")
            {
                const long f = op.I(1);
                if (f == 0 && pwo(c)) { mustfail = true; pwo(c)->setPeakWidthModel(PeakWidthModelPtr()); }
                else if (f == 1 && pdf(c)) { mustfail = true; pdf(c)->setPeakProfile(PeakProfilePtr()); }
                else if (f == 2 && pdf(c)) { mustfail = true; pdf(c)->setBaseline(PDFBaselinePtr()); }
                else if (f == 3 && evo(c)) { mustfail = true; evo(c)->addEnvelope(PDFEnvelopePtr()); }
                else if (f == 4)
                {
                    // tables have no attributes, they must stay as they are
                    auto sfo = dynamic_cast<ScatteringFactorTableOwner*>(c.p.get());
                    auto bvs = dynamic_cast<BVSCalculator*>(c.p.get());
                    auto olp = dynamic_cast<OverlapCalculator*>(c.p.get());
                    if (!sfo && !bvs && !olp) return;
                    const void* t0 = sfo ? (void*) sfo->getScatteringFactorTable().get() : bvs ? (void*) bvs->getBVParamTable().get() : (void*) olp->getAtomRadiiTable().get();
                    bool refused = false;
                    try
                    {
                        if (sfo) sfo->setScatteringFactorTable(ScatteringFactorTablePtr());
                        else if (bvs) bvs->setBVParamTable(BVParametersTablePtr());
                        else olp->setAtomRadiiTable(AtomRadiiTablePtr());
                    }
                    catch (const invalid_argument&) { refused = true; }
                    const void* t1 = sfo ? (void*) sfo->getScatteringFactorTable().get() : bvs ? (void*) bvs->getBVParamTable().get() : (void*) olp->getAtomRadiiTable().get();
                    if (!refused || t0 != t1)
                        ctx.fail("null-table", "%s: %s", where.c_str(), refused ? "refused but changed" : "accepted");
                    ctx.count("refused-null-table");
                }
                else return;
            }
            else if (op.n == "a.type")
            {
                const long f = op.I(1);
                auto inst = [&](bool known) { mustfail = !known; ft.arm(); };
                if (f == 0 && pwo(c))
                {
                    inst(PeakWidthModel::isRegisteredType(a0));
                    pwo(c)->setPeakWidthModelByType(a0);
                    fired = ft.off(ctx);
                    commit = [&]() { c.pw = addcomp(wrap(pwo(c)->getPeakWidthModel())); cval[c.pw] = make(0, a0).read(); };
                }
                else if (f == 1 && pdf(c))
                {
                    inst(PeakProfile::isRegisteredType(a0));
                    pdf(c)->setPeakProfileByType(a0);
                    fired = ft.off(ctx);
                    commit = [&]() {
                        double pp = cval[c.pp]["peakprecision"];
                        c.pp = addcomp(wrap(pdf(c)->getPeakProfile()));
                        // the precision is taken over
                        cval[c.pp]["peakprecision"] = pp;
                        if (comps[c.pp].type() != make(1, a0).type()) ctx.fail("attached:type", "%s", where.c_str());
                    };
                }
                else if (f == 2 && pdf(c))
                {
                    inst(PDFBaseline::isRegisteredType(a0));
                    pdf(c)->setBaselineByType(a0);
                    fired = ft.off(ctx);
                    commit = [&]() { c.bl = addcomp(wrap(pdf(c)->getBaseline())); cval[c.bl] = make(2, a0).read(); };
                }
                else if (f == 3 && evo(c))
                {
                    inst(PDFEnvelope::isRegisteredType(a0));
                    evo(c)->addEnvelopeByType(a0);
                    fired = ft.off(ctx);
                    commit = [&]() {
                        string t = PDFEnvelope::createByType(a0)->type();
                        if (!evo(c)->usedEnvelopeTypes().count(t)) ctx.fail("envelope-types", "%s: not added", where.c_str());
                        Comp x = wrap(evo(c)->getEnvelopeByType(t));
                        c.ev[t] = addcomp(x);
                        cval[c.ev[t]] = make(3, a0).read();
                    };
                }
                else return;
            }
            else if (op.n == "a.pop")
            {
                int id = slot[sl(op.I(1))];
                if (!id || comps[id].fam != 3 || !evo(c)) return;
                ft.arm(); evo(c)->popEnvelope(comps[id].ev); fired = ft.off(ctx);
                commit = [&, id]() { for (auto it = c.ev.begin(); it != c.ev.end(); ++it) if (it->second == id) { c.ev.erase(it); break; } };
            }
            else if (op.n == "a.popt")
            {
                if (!evo(c)) return;
                ft.arm(); evo(c)->popEnvelopeByType(a0); fired = ft.off(ctx);
                commit = [&]() { c.ev.erase(a0); };
            }
            else if (op.n == "a.clear")
            {
                if (!evo(c)) return;
                evo(c)->clearEnvelopes();
                commit = [&]() { c.ev.clear(); };
            }
            else if (op.n == "a.get")
            {
                const long f = op.I(2);
                int id = f == 0 ? c.pw : f == 1 ? c.pp : f == 2 ? c.bl : c.ev.count(a0) ? c.ev[a0] : -1;
                if (id > 0) slot[sl(op.I(1))] = id;
            }
            else if (op.n == "a.stru")
            {
                boost::shared_ptr<SimPeriodic> s(new SimPeriodic);
                s->setLatPar(4, 4.2, 4.4, 90, 90, 90);
                for (int k = 0; k < 3; ++k) { Atom a; a.atomtype = "C"; a.xyz_cartn = R3::Vector(k * 1.3, 0.4 * k, 0.2 * k * k); a.occupancy = 1; s->append(a); }
                auto n = counts(c, ci);
                vector<pair<string,double>> eff;
                for (size_t k = 0; k < op.s.size(); ++k)
                {
                    // ambiguous names make the structure unusable
                    if (n[op.s[k]] > 1) return;
                    s->cfg[op.s[k]] = op.D(k);
                }
                for (auto& kv : s->cfg) if (n[kv.first] == 1) eff.push_back(kv);
                c.p->setStructure(StructureAdapterPtr(s));
                commit = [&, eff]() {
                    for (auto& kv : eff)
                    {
                        if (own[ci].count(kv.first))
                        {
                            own[ci][kv.first] = kv.second;
                            if (c.kind == KPDF && kv.first == "qmax") c.rawqmax = kv.second;
                        }
                        else for (int id : c.comps()) if (cval[id].count(kv.first)) cval[id][kv.first] = kv.second;
                    }
                    if (c.kind == KPDF) own[ci]["qmax"] = min(c.rawqmax, M_PI / own[ci]["rstep"]);
                    dependents(ci, true);
                };
            }
            else if (op.n == "a.snap")
            {
                Archive a;
                for (auto& x : calc) a.p.push_back(x.p);
                for (int id : slot) a.s.push_back(id ? comps[id] : Comp());
                string s = diffpy::serialization_tostring(a);
                Archive b;
                diffpy::serialization_fromstring(b, s);
                auto before = cval;
                map<int,int> remap;
                for (int k = 0; k < 6; ++k) if (slot[k]) { int id = slot[k]; setcomp(id, b.s[k], remap); slot[k] = id; }
                for (int k = 0; k < 4; ++k) { calc[k].p = b.p[k]; if (calc[k].p) retarget(calc[k], remap); }
                for (auto& kv : remap) cval[kv.second] = before[kv.first];
                ctx.count("fault.crash-restart");
            }
            else if (op.n == "a.snap1")
            {
                PQPtr q;
                diffpy::serialization_fromstring(q, diffpy::serialization_tostring(c.p));
                c.p = q;
                auto before = cval;
                map<int,int> remap;
                retarget(c, remap);
                for (auto& kv : remap) cval[kv.second] = before[kv.first];
                ctx.count("fault.crash-restart");
            }
            else return;
        }
        catch (const Viol&) { throw; }
        catch (const exception& e) { fired = ft.off(ctx); exc = demangle(typeid(e).name()); }
        catch (const seam::SimAlienFault&) { fired = ft.off(ctx); exc = "seam::SimAlienFault"; }
        fired = max(fired, ft.off(ctx));
        (void) resync;
        ctx.log("%s: %s", where.c_str(), exc.c_str());
        if (exc.empty() && mustfail) ctx.fail("bad-call-accepted:" + op.n, "%s", where.c_str());
        if (!exc.empty() && !mustfail && !mayfail && !fired) ctx.fail("call-refused:" + op.n, "%s: %s", where.c_str(), exc.c_str());
        if (exc.empty()) commit();
        else if (maycommit && fired && !mustfail)
        {
            // out of memory may come after the change
            auto before = cval;
            commit();
            bool done = true;
            for (auto& kv : cval) { auto m = comps[kv.first].read(); for (auto& x : kv.second) done &= same(m[x.first], x.second); }
            if (!done) cval = before;
        }
        // ranges depend on shared components
        if (exc.empty()) refreshranges();
        check();
        purge();
        ctx.feat(strprintf("%s/%s/%d/%d/%zu", op.n.c_str(), op.n == "a.set" || op.n == "a.cset" ? a0.c_str() : "", !exc.empty(), c.kind, c.ev.size()));
        if (mustfail || fired || op.n == "a.att" || op.n == "a.type" || op.n == "a.snap") ctx.count("nontrivial");
    }
};

}   // namespace

static Scenario gen(uint64_t seed, bool thorough)
{
    Rng r(seed ^ 0xc13);
    Scenario sc;
    sc.prop = "C13";
    sc.seed = seed;
    auto add = [&](const string& n, vector<long> i = {}, vector<double> d = {}, vector<string> s = {}) { sc.ops.push_back(Op(n, i, d, s)); };
    const double pf = r.chance(0.5) ? 0.0 : r.pick(vector<double>{0.1, 0.3});
    auto fault = [&]() { if (r.chance(pf)) add("f", {r.chance(0.3) ? 0 : 1, r.pick(vector<int>{1, 1, 1000000}), long(exp(r.uni(0, log(20.))))}); };
    if (r.chance(0.35))
    {
        sc.cfg["mode"] = 0;
        static const vector<vector<string>> builtin = {{"constant", "jeong"}, {"gaussian"}, {"linear", "zero"}, {"scale", "qresolution"}, {"xray", "X", "N", "electron"}, {"constant"}};
        vector<int> fams = {r.below(6)};
        if (r.chance(0.4)) fams.push_back(4);
        if (r.chance(0.2)) fams.push_back(r.below(6));
        int n = thorough ? r.range(10, 60) : r.range(5, 30);
        const int nn = r.range(2, int(RN.size()));
        while (n--)
        {
            int f = r.pick(fams);
            auto nm = [&]() { return r.chance(0.12) ? r.pick(builtin[f]) : RN[r.below(nn)]; };
            double u = r.uni();
            if (u < 0.55) fault();
            if (u < 0.25) { string t = nm(); add("r.reg", {f}, {}, {t, r.chance(0.3) ? t : nm()}); }
            else if (u < 0.5) add("r.alias", {f}, {}, {nm(), nm()});
            else if (u < 0.65) add("r.dereg", {f, r.chance(0.1)}, {}, {nm()});
            else if (u < 0.85) add("r.new", {f, r.below(6)}, {}, {nm()});
            else if (u < 0.97) add("r.set", {r.below(6)}, {double(r.range(0, 7))});
            else add("r.clone", {r.below(6), r.below(6)});
        }
        return sc;
    }
    sc.cfg["mode"] = 1;
    int nc = r.range(1, 3);
    auto newcalc = [&](int c) { add("a.calc", {c, r.pick(vector<int>{KPDF, KPDF, KDPDF, KDPDF, KDSUM, KBVS, KOVL, KBOND})}); };
    for (int c = 0; c < nc; ++c) newcalc(c);
    static const vector<vector<string>> types = {{"constant", "jeong", "debye-waller", "al-constant"}, {"gaussian", "croppedgaussian", "al-gaussian"},
        {"linear", "zero", "al-linear"}, {"scale", "qresolution", "stepcut", "sphericalshape", "al-scale"}};
    static const vector<string> attrs = {"rmin", "rmax", "rstep", "qmin", "qmax", "qstep", "maxextension", "extendedrmin", "extendedrmax",
        "debyeprecision", "valenceprecision", "rmaxused", "width", "uisowidth", "bisowidth", "delta1", "delta2", "qbroad", "qbroad_seperable",
        "peakprecision", "slope", "scale", "qdamp", "stepcut", "spdiameter", "sim_extra", "nothing"};
    auto value = [&](const string& a) {
        double u = r.uni();
        if (u < 0.12 && a.find("width") == string::npos) return -r.uni(0.1, 2);
        if (u < 0.2) return 0.0;
        if (a == "rstep") return r.uni(0.02, 0.2);
        if (a == "qmax") return r.uni(3, 40);
        if (a == "rmax") return r.uni(1, 15);
        if (a == "qstep") return r.uni(0.02, 1);
        if (a == "peakprecision" || a == "debyeprecision" || a == "valenceprecision") return pow(10., r.uni(-8, -2));
        return r.uni(0, 3);
    };
    auto tname = [&](int f, bool direct) {
        if (f == 3 && direct && r.chance(0.4)) return r.pick(ATTRENV)[0];
        if (!direct && r.chance(0.12)) return r.pick(vector<string>{"unknown", "linear", "gaussian", "scale", "xray", ""});
        return direct ? types[f][r.below(int(types[f].size()) - 1)] : r.pick(types[f]);
    };
    int n = thorough ? r.range(10, 90) : r.range(6, 45);
    const double pset = r.pick(vector<double>{0.25, 0.4, 0.6});
    while (n--)
    {
        int c = r.below(nc);
        double u = r.uni();
        auto fam = [&]() { return r.pick(vector<int>{0, 1, 2, 3, 3, 3}); };
        if (r.chance(pset))
        {
            string a = r.pick(attrs);
            fault();
            if (r.chance(0.7)) add("a.set", {c}, {value(a)}, {a});
            else add("a.cset", {r.below(6)}, {value(a)}, {a});
        }
        else if (u < 0.16) { int f = fam(); add("a.comp", {r.below(6), f}, {}, {tname(f, true)}); }
        else if (u < 0.20) { fault(); add("a.clone", {r.below(6), r.below(6)}); }
        else if (u < 0.42) { fault(); add("a.att", {c, r.below(6)}); }
        else if (u < 0.58) { int f = fam(); fault(); add("a.type", {c, f}, {}, {tname(f, false)}); }
        else if (u < 0.61) add("a.null", {c, r.below(5)});
        else if (u < 0.66) { fault(); add("a.pop", {c, r.below(6)}); }
        else if (u < 0.73) { fault(); add("a.popt", {c}, {}, {r.chance(0.3) ? r.pick(ATTRENV)[0] : r.chance(0.1) ? string("unknown") : r.pick(types[3])}); }
        else if (u < 0.75) add("a.clear", {c});
        else if (u < 0.82) add("a.get", {c, r.below(6), fam()}, {}, {r.pick(types[3])});
        else if (u < 0.88) add("a.copy", {r.below(4), c});
        else if (u < 0.91)
        {
            vector<double> d;
            vector<string> s;
            for (const char* a : {"scale", "qdamp", "delta2", "qbroad", "rmax", "qmax"})
                if (r.chance(0.3)) { s.push_back(a); d.push_back(s.back() == "rmax" ? r.uni(2, 8) : s.back() == "qmax" ? r.uni(4, 20) : r.uni(0, 1)); }
            add("a.stru", {c}, d, s);
        }
        else if (u < 0.96) add("a.snap");
        else if (u < 0.98) add("a.snap1", {c});
        else if (u < 0.99) newcalc(c);
        else add("a.drop", {c});
        if (nc < 4 && r.chance(0.03)) ++nc;
    }
    return sc;
}

static void run(const Scenario& sc, Ctx& ctx)
{
    const Op* fault = 0;
    if (sc.C("mode") == 0)
    {
        RegRun t(ctx);
        for (size_t k = 0; k < sc.ops.size(); ++k)
        {
            const Op& op = sc.ops[k];
            if (op.n == "f") { fault = &op; continue; }
            const Op* f = fault;
            fault = 0;
            t.where = strprintf("operation %zu %s", k, op.str().c_str());
            t.apply(op, f);
        }
        return;
    }
    PeakWidthModel::aliasType("constant", "al-constant");
    PeakProfile::aliasType("gaussian", "al-gaussian");
    PDFBaseline::aliasType("linear", "al-linear");
    PDFEnvelope::aliasType("scale", "al-scale");
    AttrRun t(ctx);
    for (size_t k = 0; k < sc.ops.size(); ++k)
    {
        const Op& op = sc.ops[k];
        if (op.n == "f") { fault = &op; continue; }
        const Op* f = fault;
        fault = 0;
        t.where = strprintf("operation %zu %s", k, op.str().c_str());
        t.apply(op, f);
    }
}

static Register reg(Property{"C13", gen, run, preloadTables});

}   // namespace sim
