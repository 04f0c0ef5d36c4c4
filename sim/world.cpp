#include "world.hpp"
#include <algorithm>
#include <cmath>
#include <sstream>
#include <diffpy/srreal/PDFEnvelope.hpp>

BOOST_CLASS_EXPORT_IMPLEMENT(sim::SimPeriodic)
BOOST_CLASS_EXPORT_IMPLEMENT(sim::SimDirect)
BOOST_CLASS_EXPORT_IMPLEMENT(sim::SimJeong)
BOOST_CLASS_EXPORT_IMPLEMENT(sim::SimGauss)
BOOST_CLASS_EXPORT_IMPLEMENT(sim::SimSFT)
BOOST_CLASS_EXPORT_IMPLEMENT(sim::SimRadii)
BOOST_CLASS_EXPORT_IMPLEMENT(sim::SimScale)
BOOST_CLASS_EXPORT_IMPLEMENT(sim::SimBaseline)

namespace sim {
using namespace std;

bool g_simbnds = false;
bool g_loadfaults = true;

const char* kindname(int k)
{
    static const char* nm[] = {"PDF", "DPDF", "DSUM", "BOND", "OVL", "BVS", "PC"};
    return (k >= 0 && k < NKIND) ? nm[k] : "-";
}

void SimPeriodic::customPQConfig(PairQuantity* pq) const
{
    seam::cbpoint("customPQConfig");
    for (auto& kv : cfg)
        if (pq->hasDoubleAttr(kv.first)) pq->setDoubleAttr(kv.first, kv.second);
}

// --- outcome packing -----------------------------------------------------------

static void putn(string& s, uint64_t n) { s.append((const char*) &n, 8); }
static uint64_t getn(const string& s, size_t& p)
{
    if (p + 8 > s.size()) throw runtime_error("bad packed outcome");
    uint64_t n; memcpy(&n, s.data() + p, 8); p += 8; return n;
}
static void puts_(string& s, const string& x) { putn(s, x.size()); s += x; }
static string gets_(const string& s, size_t& p)
{
    uint64_t n = getn(s, p);
    if (n > s.size() - p) throw runtime_error("bad packed outcome");
    string rv = s.substr(p, n); p += n; return rv;
}

string Outcome::pack() const
{
    string rv;
    putn(rv, skipped); puts_(rv, exc); puts_(rv, what); putn(rv, uint64_t(calc + 1));
    putn(rv, obs.size());
    for (auto& o : obs)
    {
        puts_(rv, o.name);
        putn(rv, o.v.size());
        rv.append((const char*) o.v.data(), 8 * o.v.size());
        putn(rv, o.s.size());
        for (auto& x : o.s) puts_(rv, x);
    }
    return rv;
}

Outcome Outcome::unpack(const string& s, size_t& p)
{
    Outcome o;
    o.skipped = getn(s, p); o.exc = gets_(s, p); o.what = gets_(s, p);
    o.calc = int(getn(s, p)) - 1;
    o.obs.resize(getn(s, p));
    for (auto& b : o.obs)
    {
        b.name = gets_(s, p);
        b.v.resize(getn(s, p));
        memcpy(b.v.data(), s.data() + p, 8 * b.v.size());
        p += 8 * b.v.size();
        b.s.resize(getn(s, p));
        for (auto& x : b.s) x = gets_(s, p);
    }
    return o;
}

// --- helpers --------------------------------------------------------------------

StructureAdapterPtr sourceOf(const StructureAdapterPtr& s)
{
    StructureAdapterPtr p = s;
    for (int k = 0; k < 8 && p; ++k)
    {
        if (auto nm = boost::dynamic_pointer_cast<NoMetaStructureAdapter>(p)) p = nm->getSourceStructure();
        else if (auto ns = boost::dynamic_pointer_cast<NoSymmetryStructureAdapter>(p)) p = ns->getSourceStructure();
        else if (auto sd = boost::dynamic_pointer_cast<SimDirect>(p)) p = sd->inner;
        else break;
    }
    return p;
}

AtomicStructureAdapter* asAtomic(const StructureAdapterPtr& s)
{
    StructureAdapterPtr p = sourceOf(s);
    return dynamic_cast<AtomicStructureAdapter*>(p.get());
}

static bool reaches(StructureAdapterPtr p, const StructureAdapter* target)
{
    for (int k = 0; k < 8 && p; ++k)
    {
        if (p.get() == target) return true;
        if (auto nm = boost::dynamic_pointer_cast<NoMetaStructureAdapter>(p)) p = nm->getSourceStructure();
        else if (auto ns = boost::dynamic_pointer_cast<NoSymmetryStructureAdapter>(p)) p = ns->getSourceStructure();
        else if (auto sd = boost::dynamic_pointer_cast<SimDirect>(p)) p = sd->inner;
        else break;
    }
    return false;
}

void World::markStructure(const StructureAdapterPtr& s)
{
    StructureAdapterPtr src = sourceOf(s);
    for (size_t c = 0; c < calc.size(); ++c)
        if (calc[c] && reaches(calc[c]->getStructure(), src.get())) meta[c].dirty = true;
}

void World::markComponent(const void* p)
{
    if (!p) return;
    for (size_t c = 0; c < calc.size(); ++c)
    {
        PairQuantity* q = calc[c].get();
        if (!q) continue;
        bool hit = false;
        if (auto x = dynamic_cast<PeakWidthModelOwner*>(q)) hit |= x->getPeakWidthModel().get() == p;
        if (auto x = dynamic_cast<ScatteringFactorTableOwner*>(q)) hit |= x->getScatteringFactorTable().get() == p;
        if (auto x = dynamic_cast<PDFCalculator*>(q))
            hit |= x->getPeakProfile().get() == p || x->getBaseline().get() == p;
        if (auto x = dynamic_cast<OverlapCalculator*>(q)) hit |= x->getAtomRadiiTable().get() == p;
        if (auto x = dynamic_cast<BVSCalculator*>(q)) hit |= x->getBVParamTable().get() == p;
        if (hit) meta[c].dirty = true;
    }
}

string World::save() const { return diffpy::serialization_tostring(*this); }
void World::load(const string& s) { diffpy::serialization_fromstring(*this, s); }

string World::feature(const Op& op, const Outcome& o) const
{
    string f = op.n + (o.exc.empty() ? "" : "!") ;
    long c = (op.n[0] == 'c' || op.n[0] == 'q') ? op.I(0) : -1;
    if (has(c))
    {
        f += string("/") + kindname(meta[c].kind);
        f += strprintf("/e%du%dd%d", int(calc[c]->getEvaluatorType()),
                int(calc[c]->getEvaluatorTypeUsed()), int(meta[c].dirty));
        if (calc[c]->getStructure()) f += strprintf("/n%d", min(6, calc[c]->getStructure()->countSites()));
    }
    return f;
}

// --- structure operations --------------------------------------------------------

static Atom atomFrom(const Op& op)
{
    Atom a;
    a.atomtype = op.S(0);
    a.xyz_cartn = R3::Vector(op.D(0), op.D(1), op.D(2));
    a.occupancy = op.D(3, 1.0);
    a.anisotropy = op.I(2);
    double u11 = op.D(4), u22 = op.D(5), u33 = op.D(6);
    if (!a.anisotropy) { u22 = u33 = u11; }
    a.uij_cartn = R3::zeromatrix();
    a.uij_cartn(0, 0) = u11; a.uij_cartn(1, 1) = u22; a.uij_cartn(2, 2) = u33;
    if (a.anisotropy)
    {
        a.uij_cartn(0, 1) = a.uij_cartn(1, 0) = op.D(7);
        a.uij_cartn(0, 2) = a.uij_cartn(2, 0) = op.D(8);
        a.uij_cartn(1, 2) = a.uij_cartn(2, 1) = op.D(9);
    }
    return a;
}

// sites at special positions need displacements compatible with symmetry,
// which holds for diagonal tensors and all symmetry operations used here
static Atom compatible(Atom a, bool crystal)
{
    if (crystal)
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (i != j) a.uij_cartn(i, j) = 0;
    return a;
}

static void setgroup(CrystalStructureAdapter* cr, int g)
{
    cr->clearSymOps();
    R3::Matrix E = R3::identity();
    auto diag = [&](double a, double b, double c) {
        R3::Matrix m = R3::zeromatrix();
        m(0, 0) = a; m(1, 1) = b; m(2, 2) = c;
        return m;
    };
    R3::Vector z(0, 0, 0);
    cr->addSymOp(E, z);
    switch (g)
    {
        case 1: cr->addSymOp(diag(-1, -1, -1), z); break;
        case 2: cr->addSymOp(diag(-1, -1, 1), z); break;
        case 3: cr->addSymOp(E, R3::Vector(0.5, 0.5, 0.5)); break;
        case 4:
            cr->addSymOp(E, R3::Vector(0.5, 0.5, 0));
            cr->addSymOp(E, R3::Vector(0.5, 0, 0.5));
            cr->addSymOp(E, R3::Vector(0, 0.5, 0.5));
            break;
        case 5: cr->addSymOp(diag(-1, -1, 1), R3::Vector(0, 0, 0.5)); break;
        case 6:
            cr->addSymOp(diag(-1, -1, 1), z);
            cr->addSymOp(diag(-1, -1, -1), z);
            cr->addSymOp(diag(1, 1, -1), z);
            break;
        default: break;
    }
}

bool World::dostru(const Op& op)
{
    const string& n = op.n;
    long s = op.I(0);
    if (s < 0 || s > 15) return false;
    if (s >= long(stru.size())) stru.resize(s + 1);
    if (n == "s.new")
    {
        StructureAdapterPtr p;
        switch (op.I(1))
        {
            case 0: p.reset(new AtomicStructureAdapter); break;
            case 1:
            {
                PeriodicStructureAdapterPtr q(new PeriodicStructureAdapter);
                q->setLatPar(op.D(0, 5), op.D(1, 5), op.D(2, 5), op.D(3, 90), op.D(4, 90), op.D(5, 90));
                p = q;
                break;
            }
            case 2:
            {
                CrystalStructureAdapterPtr q(new CrystalStructureAdapter);
                q->setLatPar(op.D(0, 5), op.D(1, 5), op.D(2, 5), op.D(3, 90), op.D(4, 90), op.D(5, 90));
                p = q;
                break;
            }
            case 3:
            {
                boost::shared_ptr<SimPeriodic> q(new SimPeriodic);
                q->setLatPar(op.D(0, 5), op.D(1, 5), op.D(2, 5), op.D(3, 90), op.D(4, 90), op.D(5, 90));
                p = q;
                break;
            }
            case 4: if (!hass(op.I(2)) || op.I(2) == s) return false; p = nometa(stru[op.I(2)]); break;
            case 5: if (!hass(op.I(2)) || op.I(2) == s) return false; p = nosymmetry(stru[op.I(2)]); break;
            case 7:
            {
                boost::shared_ptr<SimDirect> q(new SimDirect);
                q->fast = op.I(2);
                p = q;
                break;
            }
            default: p = emptyStructureAdapter(); break;
        }
        stru[s] = p;
        return true;
    }
    if (n == "s.copy")
    {
        if (!hass(op.I(1))) return false;
        stru[s] = stru[op.I(1)]->clone();
        return true;
    }
    if (n == "s.conv")
    {
        // structure of another kind that has the same sites
        AtomicStructureAdapter* a = hass(op.I(1)) ? asAtomic(stru[op.I(1)]) : nullptr;
        if (!a) return false;
        AtomicStructureAdapterPtr p;
        const long kind = op.I(2);
        if (kind == 0) p.reset(new AtomicStructureAdapter);
        else if (kind == 1) p.reset(new PeriodicStructureAdapter);
        else if (kind == 2) p.reset(new CrystalStructureAdapter);
        else p.reset(new SimPeriodic);
        if (auto q = boost::dynamic_pointer_cast<PeriodicStructureAdapter>(p))
        {
            auto aper = dynamic_cast<PeriodicStructureAdapter*>(a);
            if (aper)
            {
                const Lattice& L = aper->getLattice();
                if (kind == 2) q->setLatPar(L.a(), L.b(), L.c(), 90, 90, 90);
                else q->setLatPar(L.a(), L.b(), L.c(), L.alpha(), L.beta(), L.gamma());
            }
            else q->setLatPar(op.D(0, 5), op.D(1, 5), op.D(2, 5), 90, 90, 90);
        }
        for (const Atom& x : *a) p->append(compatible(x, kind == 2));
        if (kind == 2) setgroup(static_cast<CrystalStructureAdapter*>(p.get()), op.I(3));
        stru[s] = p;
        return true;
    }
    if (n == "s.alias")
    {
        if (!hass(op.I(1))) return false;
        stru[s] = stru[op.I(1)];
        return true;
    }
    if (!stru[s]) return false;
    AtomicStructureAdapter* a = asAtomic(stru[s]);
    if (!a) return false;
    auto* per = dynamic_cast<PeriodicStructureAdapter*>(a);
    auto* cry = dynamic_cast<CrystalStructureAdapter*>(a);
    auto* sp = dynamic_cast<SimPeriodic*>(a);
    int sz = int(a->size());
    auto idx = [&](long k) { return sz ? int(((k % sz) + sz) % sz) : 0; };
    markStructure(stru[s]);
    if (n == "s.add") { a->insert(int(((op.I(1) % (sz + 1)) + sz + 1) % (sz + 1)), compatible(atomFrom(op), cry)); return true; }
    if (n == "s.lat")
    {
        if (!per) return false;
        // symmetry operations of crystals are compatible with orthogonal cells
        if (cry) per->setLatPar(op.D(0), op.D(1), op.D(2), 90, 90, 90);
        else per->setLatPar(op.D(0), op.D(1), op.D(2), op.D(3), op.D(4), op.D(5));
        return true;
    }
    if (n == "s.latmod")
    {
        // small changes or permutations of the lattice
        if (!per) return false;
        const Lattice& L = per->getLattice();
        double x[6] = {L.a(), L.b(), L.c(), L.alpha(), L.beta(), L.gamma()};
        const int k = op.I(1) % 3, l = (k + 1) % 3;
        switch (op.I(2))
        {
            case 0: swap(x[k], x[l]); break;
            case 1: x[k] += op.D(0); break;
            case 2: if (!cry) x[3 + k] += op.D(0); else x[k] += op.D(0); break;
            case 3: if (!cry) x[3 + k] = 180 - x[3 + k]; break;
            default: swap(x[k], x[l]); if (!cry) swap(x[3 + k], x[3 + l]); break;
        }
        per->setLatPar(x[0], x[1], x[2], x[3], x[4], x[5]);
        return true;
    }
    if (n == "s.symop")
    {
        if (!cry) return false;
        R3::Matrix R = R3::zeromatrix();
        for (int k = 0; k < 3; ++k) R(k, k) = (op.I(1) >> k) & 1 ? -1 : 1;
        cry->addSymOp(R, R3::Vector(op.D(0), op.D(1), op.D(2)));
        return true;
    }
    if (n == "s.symclr") { if (!cry) return false; cry->clearSymOps(); return true; }
    if (n == "s.symprec") { if (!cry) return false; cry->setSymmetryPrecision(op.D(0)); return true; }
    if (n == "s.group") { if (!cry) return false; setgroup(cry, op.I(1)); return true; }
    if (n == "s.cfg") { if (!sp) return false; sp->cfg[op.S(0)] = op.D(0); return true; }
    if (n == "s.cfgclr") { if (!sp) return false; sp->cfg.clear(); return true; }
    if (n == "s.clear") { a->clear(); return true; }
    if (!sz) return false;
    int k = idx(op.I(1));
    if (n == "s.del") { a->erase(k); return true; }
    Atom& x = a->at(k);
    if (n == "s.mov") { x.xyz_cartn += R3::Vector(op.D(0), op.D(1), op.D(2)); return true; }
    if (n == "s.type") { x.atomtype = op.S(0); return true; }
    if (n == "s.occ") { x.occupancy = op.D(0); return true; }
    if (n == "s.uij")
    {
        Atom b = atomFrom(Op("", {0, 0, op.I(2)}, {0, 0, 0, 1, op.D(0), op.D(1), op.D(2), op.D(3), op.D(4), op.D(5)}, {""}));
        b = compatible(b, cry);
        x.anisotropy = b.anisotropy; x.uij_cartn = b.uij_cartn;
        return true;
    }
    if (n == "s.swap") { swap(a->at(k), a->at(idx(op.I(2)))); return true; }
    return false;
}

// --- calculator operations ---------------------------------------------------------

static bool cleanattr(int kind, const string& nm)
{
    if (nm == "scale" || nm == "qdamp" || nm == "stepcut" || nm == "spdiameter") return true;
    if (nm == "qmin" && (kind == KPDF || kind == KDPDF)) return true;
    return false;
}

template <class T> static void copycalc(PQPtr& dst, const PairQuantity& src, bool assign)
{
    const T& x = dynamic_cast<const T&>(src);
    if (assign) dynamic_cast<T&>(*dst) = x;
    else dst = boost::shared_ptr<T>(new T(x));
}

bool World::docalc(const Op& op, Outcome& out)
{
    const string& n = op.n;
    long c = op.I(0);
    if (c < 0 || c > 15) return false;
    if (n == "c.new")
    {
        if (c >= long(calc.size())) { calc.resize(c + 1); meta.resize(c + 1); }
        PQPtr p;
        switch (op.I(1))
        {
            case KPDF: p.reset(new PDFCalculator); break;
            case KDPDF: p.reset(new DebyePDFCalculator); break;
            case KDSUM: p.reset(new BaseDebyeSum); break;
            case KBOND: p.reset(new BondCalculator); break;
            case KOVL: p.reset(new OverlapCalculator); break;
            case KBVS: p.reset(new BVSCalculator); break;
            case KPC: p.reset(new PairCounter); break;
            default: return false;
        }
        CalcMeta m;
        m.kind = op.I(1);
        m.vev = fastkind(m.kind) ? max(1L, min(3L, op.I(2, 2))) : 1;
        if (op.D(0) > 0) p->setDoubleAttr("rmax", op.D(0));
        if (fastkind(m.kind)) p->setEvaluatorType(PQEvaluatorType(basiconly ? 1 : m.vev));
        calc[c] = p;
        meta[c] = m;
        return true;
    }
    if (!has(c)) return false;
    PQPtr pq = calc[c];
    CalcMeta& m = meta[c];
    if (n == "c.drop") { calc[c].reset(); meta[c] = CalcMeta(); return true; }
    if (n == "c.copy")
    {
        // copy, or assign when the target is of the same kind; components are shared
        const long t = op.I(1);
        if (t < 0 || t >= long(calc.size()) || t == c) return false;
        const bool assign = op.I(2) && has(t) && meta[t].kind == m.kind;
        if (assign) meta[t].uncertain = meta[t].dirty = true;
        switch (m.kind)
        {
            case KPDF: copycalc<PDFCalculator>(calc[t], *pq, assign); break;
            case KDPDF: copycalc<DebyePDFCalculator>(calc[t], *pq, assign); break;
            case KDSUM: copycalc<BaseDebyeSum>(calc[t], *pq, assign); break;
            case KBOND: copycalc<BondCalculator>(calc[t], *pq, assign); break;
            case KOVL: copycalc<OverlapCalculator>(calc[t], *pq, assign); break;
            case KBVS: copycalc<BVSCalculator>(calc[t], *pq, assign); break;
            case KPC: copycalc<PairCounter>(calc[t], *pq, assign); break;
            default: return false;
        }
        meta[t] = m;
        return true;
    }
    if (n == "c.eval")
    {
        if (!hass(op.I(1))) return false;
        m.dirty = true;
        // results of structure-driven configuration may spread by sharing
        pq->eval(stru[op.I(1)]);
        if (auto x = dynamic_cast<PeakWidthModelOwner*>(pq.get()))
        {
            auto sp = dynamic_cast<SimPeriodic*>(stru[op.I(1)].get());
            if (sp && !sp->cfg.empty())
            {
                markComponent(x->getPeakWidthModel().get());
                if (auto y = dynamic_cast<PDFCalculator*>(pq.get())) markComponent(y->getPeakProfile().get());
            }
        }
        if (auto y = dynamic_cast<PDFCalculator*>(pq.get())) markComponent(y->getBaseline().get());
        m.dirty = false;
        m.uncertain = false;
        return true;
    }
    if (n == "c.eval0")
    {
        if (m.uncertain) return false;
        m.dirty = true;
        pq->eval();
        if (auto y = dynamic_cast<PDFCalculator*>(pq.get())) markComponent(y->getBaseline().get());
        m.dirty = false;
        return true;
    }
    if (n == "c.setstru")
    {
        if (!hass(op.I(1))) return false;
        m.dirty = true;
        pq->setStructure(stru[op.I(1)]);
        if (auto x = dynamic_cast<PeakWidthModelOwner*>(pq.get()))
        {
            auto sp = dynamic_cast<SimPeriodic*>(stru[op.I(1)].get());
            if (sp && !sp->cfg.empty())
            {
                markComponent(x->getPeakWidthModel().get());
                if (auto y = dynamic_cast<PDFCalculator*>(pq.get())) markComponent(y->getPeakProfile().get());
            }
        }
        if (auto y = dynamic_cast<PDFCalculator*>(pq.get())) markComponent(y->getBaseline().get());
        m.uncertain = false;
        return true;
    }
    if (n == "c.attr")
    {
        string nm = op.S(0);
        // too many pairs, except for calculators that crop their range
        if (nm == "rmax" && op.D(0) > 20 && m.kind != KOVL && m.kind != KBVS) return false;
        if (!pq->hasDoubleAttr(nm) || !pq->namesOfWritableDoubleAttributes().count(nm)) return false;
        if (!cleanattr(m.kind, nm))
        {
            m.dirty = true;
            if (auto x = dynamic_cast<PeakWidthModelOwner*>(pq.get()))
                if (x->getPeakWidthModel()->hasDoubleAttr(nm)) markComponent(x->getPeakWidthModel().get());
            if (auto y = dynamic_cast<PDFCalculator*>(pq.get()))
            {
                if (y->getPeakProfile()->hasDoubleAttr(nm)) markComponent(y->getPeakProfile().get());
                if (y->getBaseline()->hasDoubleAttr(nm)) markComponent(y->getBaseline().get());
            }
        }
        pq->setDoubleAttr(nm, op.D(0));
        return true;
    }
    if (n == "c.q")
    {
        auto x = dynamic_cast<BaseDebyeSum*>(pq.get());
        if (!x || m.kind != KDSUM) return false;
        m.dirty = true;
        if (op.I(1) == 0) x->setQmin(op.D(0));
        else if (op.I(1) == 1) x->setQmax(op.D(0));
        else x->setQstep(op.D(0));
        return true;
    }
    if (n == "c.optq")
    {
        auto x = dynamic_cast<DebyePDFCalculator*>(pq.get());
        if (!x) return false;
        m.dirty = true;
        x->setOptimumQstep();
        return true;
    }
    if (n == "c.evtype")
    {
        if (!fastkind(m.kind))
        {
            pq->setEvaluatorType(PQEvaluatorType(op.I(1)));
            return true;
        }
        // the change resets the value for the assigned structure
        if (m.uncertain) return false;
        int tp = max(1L, min(3L, op.I(1)));
        bool change = tp != m.vev;
        if (change) m.dirty = true;
        if (!basiconly) pq->setEvaluatorType(PQEvaluatorType(tp));
        else if (change)
        {
            // repeat the value reset from a change of the evaluator
            pq->setEvaluatorType(OPTIMIZED);
            pq->setEvaluatorType(BASIC);
        }
        m.vev = tp;
        return true;
    }
    if (n == "c.pmask") { m.dirty = true; pq->setPairMask(op.I(1), op.I(2), op.I(3)); return true; }
    if (n == "c.tmask") { m.dirty = true; pq->setTypeMask(op.S(0), op.S(1), op.I(1)); return true; }
    if (n == "c.mall") { m.dirty = true; pq->maskAllPairs(op.I(1)); return true; }
    if (n == "c.minv") { m.dirty = true; pq->invertMask(); return true; }
    // components
    auto pwo = dynamic_cast<PeakWidthModelOwner*>(pq.get());
    auto sfo = dynamic_cast<ScatteringFactorTableOwner*>(pq.get());
    auto evo = dynamic_cast<PDFEnvelopeOwner*>(pq.get());
    auto pdf = dynamic_cast<PDFCalculator*>(pq.get());
    auto ovl = dynamic_cast<OverlapCalculator*>(pq.get());
    auto bvs = dynamic_cast<BVSCalculator*>(pq.get());
    auto bnd = dynamic_cast<BondCalculator*>(pq.get());
    if (n == "c.pwtype")
    {
        if (!pwo) return false;
        m.dirty = true;
        if (op.S(0) == "sim") pwo->setPeakWidthModel(PeakWidthModelPtr(new SimJeong));
        else pwo->setPeakWidthModelByType(op.S(0));
        return true;
    }
    if (n == "c.proftype")
    {
        if (!pdf) return false;
        m.dirty = true;
        if (op.S(0) == "sim")
        {
            PeakProfilePtr p(new SimGauss);
            p->setPrecision(pdf->getPeakProfile()->getPrecision());
            pdf->setPeakProfile(p);
        }
        else pdf->setPeakProfileByType(op.S(0));
        return true;
    }
    if (n == "c.basetype")
    {
        if (!pdf) return false;
        m.dirty = true;
        if (op.S(0) == "sim") pdf->setBaseline(PDFBaselinePtr(new SimBaseline));
        else pdf->setBaselineByType(op.S(0));
        return true;
    }
    if (n == "c.envtype")
    {
        if (!evo) return false;
        if (op.S(0) == "sim") evo->addEnvelope(PDFEnvelopePtr(new SimScale));
        else evo->addEnvelopeByType(op.S(0));
        return true;
    }
    if (n == "c.envpop") { if (!evo) return false; evo->popEnvelopeByType(op.S(0)); return true; }
    if (n == "c.envclr") { if (!evo) return false; evo->clearEnvelopes(); return true; }
    if (n == "c.sfttype")
    {
        if (!sfo) return false;
        m.dirty = true;
        if (op.S(0) == "sim") sfo->setScatteringFactorTable(ScatteringFactorTablePtr(new SimSFT));
        else sfo->setScatteringFactorTableByType(op.S(0));
        return true;
    }
    if (n == "c.sfcust")
    {
        if (!sfo) return false;
        auto t = sfo->getScatteringFactorTable();
        markComponent(t.get());
        if (op.I(1)) t->setCustomAs(op.S(0), op.S(1), op.D(0), op.D(1));
        else t->setCustomAs(op.S(0), op.S(1));
        return true;
    }
    if (n == "c.sfreset")
    {
        if (!sfo) return false;
        auto t = sfo->getScatteringFactorTable();
        markComponent(t.get());
        if (op.I(1)) t->resetAll(); else t->resetCustom(op.S(0));
        return true;
    }
    if (n == "c.radtype")
    {
        if (!ovl) return false;
        m.dirty = true;
        if (op.S(0) == "sim") ovl->setAtomRadiiTable(AtomRadiiTablePtr(new SimRadii));
        else ovl->setAtomRadiiTableByType(op.S(0));
        return true;
    }
    if (n == "c.radcust")
    {
        if (!ovl) return false;
        auto t = ovl->getAtomRadiiTable();
        markComponent(t.get());
        t->setCustom(op.S(0), op.D(0));
        return true;
    }
    if (n == "c.raddef")
    {
        if (!ovl) return false;
        auto t = boost::dynamic_pointer_cast<ConstantRadiiTable>(ovl->getAtomRadiiTable());
        if (!t) return false;
        markComponent(t.get());
        t->setDefault(op.D(0));
        return true;
    }
    if (n == "c.radreset")
    {
        if (!ovl) return false;
        auto t = ovl->getAtomRadiiTable();
        markComponent(t.get());
        if (op.I(1)) t->resetAll(); else t->resetCustom(op.S(0));
        return true;
    }
    if (n == "c.bvcust")
    {
        if (!bvs) return false;
        auto t = bvs->getBVParamTable();
        markComponent(t.get());
        t->setCustom(op.S(0), op.I(1), op.S(1), op.I(2), op.D(0), op.D(1), "sim");
        return true;
    }
    if (n == "c.bvreset")
    {
        if (!bvs) return false;
        auto t = bvs->getBVParamTable();
        markComponent(t.get());
        if (op.I(3)) { t->resetAll(); }
        else t->resetCustom(op.S(0), op.I(1), op.S(1), op.I(2));
        return true;
    }
    if (n == "c.bvval")
    {
        if (!bvs) return false;
        auto t = bvs->getBVParamTable();
        markComponent(t.get());
        if (op.I(2)) t->resetAtomValences(); else t->setAtomValence(op.S(0), op.I(1));
        return true;
    }
    if (n == "c.cone") { if (!bnd) return false; m.dirty = true; bnd->filterCone(R3::Vector(op.D(0), op.D(1), op.D(2)), op.D(3)); return true; }
    if (n == "c.coneoff") { if (!bnd) return false; m.dirty = true; bnd->filterOff(); return true; }
    if (n == "c.share")
    {
        // calculator c takes over a component of another calculator
        long d = op.I(1);
        if (!has(d) || d == c) return false;
        PairQuantity* o = calc[d].get();
        auto pwo2 = dynamic_cast<PeakWidthModelOwner*>(o);
        auto sfo2 = dynamic_cast<ScatteringFactorTableOwner*>(o);
        auto evo2 = dynamic_cast<PDFEnvelopeOwner*>(o);
        auto pdf2 = dynamic_cast<PDFCalculator*>(o);
        auto ovl2 = dynamic_cast<OverlapCalculator*>(o);
        auto bvs2 = dynamic_cast<BVSCalculator*>(o);
        m.dirty = true;
        switch (op.I(2))
        {
            case 0: if (!pwo || !pwo2) return false; pwo->setPeakWidthModel(pwo2->getPeakWidthModel()); break;
            case 1: if (!sfo || !sfo2) return false; sfo->setScatteringFactorTable(sfo2->getScatteringFactorTable()); break;
            case 2: if (!pdf || !pdf2) return false; pdf->setPeakProfile(pdf2->getPeakProfile()); break;
            case 3:
            {
                if (!evo || !evo2) return false;
                auto tps = evo2->usedEnvelopeTypes();
                if (tps.empty()) return false;
                auto it = tps.begin();
                advance(it, op.I(3) % long(tps.size()));
                evo->addEnvelope(evo2->getEnvelopeByType(*it));
                break;
            }
            case 4: if (!ovl || !ovl2) return false; ovl->setAtomRadiiTable(ovl2->getAtomRadiiTable()); break;
            case 5: if (!bvs || !bvs2) return false; bvs->setBVParamTable(bvs2->getBVParamTable()); break;
            default: return false;
        }
        return true;
    }
    return false;
}

static Obs fromints(const string& n, const SiteIndices& x)
{
    return Obs(n, vector<double>(x.begin(), x.end()));
}
static Obs fromvecs(const string& n, const vector<R3::Vector>& x)
{
    Obs o(n);
    for (auto& v : x) { o.v.push_back(v[0]); o.v.push_back(v[1]); o.v.push_back(v[2]); }
    return o;
}
static Obs fromstrs(const string& n, const vector<string>& x)
{
    Obs o(n);
    o.s = x;
    return o;
}

void World::observe(int c, int which, vector<Obs>& obs, bool dirty) const
{
    PairQuantity* pq = calc[c].get();
    const bool all = which < 0;
    int kind = meta[c].kind;
    if ((all || which == 2) && !meta[c].uncertain)
    {
        auto names = pq->namesOfDoubleAttributes();
        Obs o("attr");
        for (auto& nm : names)
        {
            if (dirty && nm == "rmaxused") continue;
            o.s.push_back(nm);
            o.v.push_back(pq->getDoubleAttr(nm));
        }
        obs.push_back(o);
    }
    if (dirty) return;
    if ((all || which == 0) && kind != KOVL) obs.push_back(Obs("value", pq->value()));
    if (!(all || which == 1)) return;
    switch (kind)
    {
        case KPDF:
        {
            auto* p = static_cast<PDFCalculator*>(dynamic_cast<PDFCalculator*>(pq));
            obs.push_back(Obs("getPDF", p->getPDF()));
            obs.push_back(Obs("getRDF", p->getRDF()));
            obs.push_back(Obs("getRDFperR", p->getRDFperR()));
            obs.push_back(Obs("getF", p->getF()));
            obs.push_back(Obs("getExtendedPDF", p->getExtendedPDF()));
            obs.push_back(Obs("getExtendedRDF", p->getExtendedRDF()));
            obs.push_back(Obs("getExtendedRDFperR", p->getExtendedRDFperR()));
            obs.push_back(Obs("getExtendedF", p->getExtendedF()));
            obs.push_back(Obs("getExtendedRgrid", p->getExtendedRgrid()));
            obs.push_back(Obs("getRgrid", p->getRgrid()));
            obs.push_back(Obs("getQgrid", p->getQgrid()));
            break;
        }
        case KDPDF:
        {
            auto* p = dynamic_cast<DebyePDFCalculator*>(pq);
            obs.push_back(Obs("getPDF", p->getPDF()));
            obs.push_back(Obs("getRDF", p->getRDF()));
            obs.push_back(Obs("getRDFperR", p->getRDFperR()));
            obs.push_back(Obs("getF", p->getF()));
            obs.push_back(Obs("getQgrid", p->getQgrid()));
            obs.push_back(Obs("getRgrid", p->getRgrid()));
            obs.push_back(Obs("isOptimumQstep", vector<double>(1, p->isOptimumQstep())));
            break;
        }
        case KDSUM:
        {
            auto* p = dynamic_cast<BaseDebyeSum*>(pq);
            obs.push_back(Obs("getF", p->getF()));
            obs.push_back(Obs("getQgrid", p->getQgrid()));
            obs.push_back(Obs("q", vector<double>{p->getQmin(), p->getQmax(), p->getQstep(), p->getDebyePrecision()}));
            break;
        }
        case KBOND:
        {
            auto* p = dynamic_cast<BondCalculator*>(pq);
            obs.push_back(Obs("distances", p->distances()));
            obs.push_back(fromvecs("directions", p->directions()));
            obs.push_back(fromints("sites0", p->sites0()));
            obs.push_back(fromints("sites1", p->sites1()));
            obs.push_back(fromstrs("types0", p->types0()));
            obs.push_back(fromstrs("types1", p->types1()));
            break;
        }
        case KOVL:
        {
            auto* p = dynamic_cast<OverlapCalculator*>(pq);
            // pair lists in the order independent of the summation order
            auto ds = p->distances();
            auto ol = p->overlaps();
            auto dr = p->directions();
            auto s0 = p->sites0(); auto s1 = p->sites1();
            auto t0 = p->types0(); auto t1 = p->types1();
            vector<size_t> ord(ds.size());
            for (size_t k = 0; k < ord.size(); ++k) ord[k] = k;
            sort(ord.begin(), ord.end(), [&](size_t a, size_t b) {
                if (ds[a] != ds[b]) return ds[a] < ds[b];
                if (s0[a] != s0[b]) return s0[a] < s0[b];
                if (s1[a] != s1[b]) return s1[a] < s1[b];
                for (int k = 0; k < 3; ++k) if (dr[a][k] != dr[b][k]) return dr[a][k] < dr[b][k];
                return false;
            });
            Obs od("distances"), oo("overlaps"), o0("sites0"), o1("sites1"), ov("directions"), ot("types");
            for (size_t k : ord)
            {
                od.v.push_back(ds[k]); oo.v.push_back(ol[k]);
                o0.v.push_back(s0[k]); o1.v.push_back(s1[k]);
                for (int j = 0; j < 3; ++j) ov.v.push_back(dr[k][j]);
                ot.s.push_back(t0[k] + "-" + t1[k]);
            }
            obs.insert(obs.end(), {od, oo, o0, o1, ov, ot});
            obs.push_back(Obs("siteSquareOverlaps", p->siteSquareOverlaps()));
            obs.push_back(Obs("totals", vector<double>{p->totalSquareOverlap(), p->meanSquareOverlap(), p->getRmaxUsed()}));
            obs.push_back(fromvecs("gradients", p->gradients()));
            obs.push_back(Obs("coordinations", p->coordinations()));
            int ns = pq->getStructure()->countSites();
            Obs nb("neighbors"), cb("coordinationByTypes"), fd("flipDiff");
            for (int i = 0; i < ns; ++i)
            {
                auto u = p->getNeighborSites(i);
                for (int x : set<int>(u.begin(), u.end())) nb.v.push_back(x);
                nb.v.push_back(-1);
                auto bt = p->coordinationByTypes(i);
                for (auto& kv : map<string,double>(bt.begin(), bt.end()))
                { cb.s.push_back(kv.first); cb.v.push_back(kv.second); }
                cb.s.push_back("|");
                if (i < 3) for (int j = 0; j < ns; ++j)
                { fd.v.push_back(p->flipDiffTotal(i, j)); fd.v.push_back(p->flipDiffMean(i, j)); }
            }
            obs.push_back(nb); obs.push_back(cb); obs.push_back(fd);
            auto hoods = p->neighborhoods();
            set< set<int> > hs;
            for (auto& h : hoods) hs.insert(set<int>(h.begin(), h.end()));
            Obs oh("neighborhoods");
            for (auto& h : hs) { for (int x : h) oh.v.push_back(x); oh.v.push_back(-1); }
            obs.push_back(oh);
            // order of neighborhoods is only subject to reproducibility
            Obs ho("~hoodorder");
            for (auto& h : hoods) ho.v.push_back(h.empty() ? -1 : *min_element(h.begin(), h.end()));
            obs.push_back(ho);
            break;
        }
        case KBVS:
        {
            auto* p = dynamic_cast<BVSCalculator*>(pq);
            obs.push_back(Obs("valences", p->valences()));
            obs.push_back(Obs("bvdiff", p->bvdiff()));
            obs.push_back(Obs("bvms", vector<double>{p->bvmsdiff(), p->bvrmsdiff()}));
            break;
        }
        default: break;
    }
}

Outcome World::apply(const Op& op)
{
    Outcome out;
    try
    {
        if (op.n[0] == 's') out.skipped = !dostru(op);
        else if (op.n[0] == 'c') out.skipped = !docalc(op, out);
        else if (op.n == "x.abandon")
        {
            // the preceding evaluation failed, assigned structure is not known
            long c = op.I(0);
            if (!has(c)) out.skipped = true;
            else { meta[c].dirty = true; meta[c].uncertain = true; }
        }
        else if (op.n == "q")
        {
            long c = op.I(0);
            if (!has(c)) out.skipped = true;
            else
            {
                out.calc = c;
                observe(c, op.I(1, -1), out.obs, meta[c].dirty || meta[c].uncertain);
            }
        }
        else out.skipped = true;
    }
    catch (const Viol&) { throw; }
    catch (const exception& e)
    {
        seam::g_alloc.armed = false;
        out.obs.clear();
        out.exc = demangle(typeid(e).name());
        out.what = e.what();
    }
    catch (const seam::SimAlienFault& e)
    {
        seam::g_alloc.armed = false;
        out.obs.clear();
        out.exc = "seam::SimAlienFault";
        out.what = e.what();
    }
    return out;
}

void logOutcome(Ctx& ctx, const Op& op, const Outcome& o, const char* tag)
{
    if (o.exc.size()) ctx.log("%s%s -> %s %s", tag, op.str().c_str(), o.exc.c_str(), o.what.c_str());
    else ctx.log("%s%s%s", tag, op.str().c_str(), o.skipped ? " (skipped)" : "");
    for (auto& b : o.obs) { ctx.logd(b.name, b.v); if (!b.s.empty()) ctx.logs(b.name, b.s); }
}

void preloadTables()
{
    for (auto t : {"xray", "electron", "neutron", "electronnumber"})
        ScatteringFactorTable::createByType(t)->lookup("C");
    BVParametersTable().lookup("Na", 1, "Cl", -1);
}

// --- comparison ---------------------------------------------------------------------

string Comparer::compare(const Outcome& a, const Outcome& b, int kind, string& cls)
{
    if (a.exc != b.exc)
    {
        cls = "exception-differs";
        return strprintf("exception '%s' (%s) vs '%s' (%s)", a.exc.c_str(), a.what.c_str(), b.exc.c_str(), b.what.c_str());
    }
    if (a.skipped != b.skipped) { cls = "skip-differs"; return "operation applicable in one history only"; }
    if (a.obs.size() != b.obs.size()) { cls = "observations-differ"; return "number of observations"; }
    for (size_t k = 0; k < a.obs.size(); ++k)
    {
        const Obs& x = a.obs[k];
        const Obs& y = b.obs[k];
        string id = string(kindname(kind)) + "." + x.name;
        cls = "differs:" + id;
        // unspecified details, which only have to be reproducible
        if (x.name == y.name && x.name[0] == '~') continue;
        if (x.name != y.name) return "name " + x.name + " vs " + y.name;
        if (x.s != y.s) return id + ": string lists differ";
        if (x.v.size() != y.v.size()) return strprintf("%s: sizes %zu vs %zu", id.c_str(), x.v.size(), y.v.size());
        double& hm = hmax[to_string(a.calc) + id];
        if (x.name != "attr")
        {
            for (double t : y.v) if (isfinite(t)) hm = max(hm, fabs(t));
            for (double t : x.v) if (isfinite(t)) hm = max(hm, fabs(t));
        }
        for (size_t i = 0; i < x.v.size(); ++i)
        {
            double p = x.v[i], q = y.v[i];
            if (p == q || (isnan(p) && isnan(q))) continue;
            double sc = (x.name == "attr") ? max(fabs(p), fabs(q)) : hm;
            if (!(fabs(p - q) <= rtol * sc + 1e-13))
            {
                string nm = (x.name == "attr" && i < x.s.size()) ? x.s[i] : to_string(i);
                return strprintf("%s[%s]: %.15g vs %.15g (scale %.3g)", id.c_str(), nm.c_str(), p, q, sc);
            }
        }
    }
    cls.clear();
    return "";
}

}   // namespace sim
