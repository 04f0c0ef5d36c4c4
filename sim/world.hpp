// World: a set of structures and calculators of the real library that is
// driven by operations of a scenario.
#ifndef SIM_WORLD_HPP
#define SIM_WORLD_HPP
#include "core.hpp"
#include "seams.hpp"
#include <boost/serialization/map.hpp>
#include <boost/serialization/set.hpp>
#include <boost/serialization/vector.hpp>
#include <boost/serialization/shared_ptr.hpp>
#include <boost/serialization/export.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/list.hpp>
#include <diffpy/serialization.ipp>
#include <diffpy/srreal/AtomicStructureAdapter.hpp>
#include <diffpy/srreal/PeriodicStructureAdapter.hpp>
#include <diffpy/srreal/PointsInSphere.hpp>
#include <diffpy/srreal/CrystalStructureAdapter.hpp>
#include <diffpy/srreal/NoMetaStructureAdapter.hpp>
#include <diffpy/srreal/NoSymmetryStructureAdapter.hpp>
#include <diffpy/srreal/StructureDifference.hpp>
#include <diffpy/srreal/PairQuantity.hpp>
#include <diffpy/srreal/PDFCalculator.hpp>
#include <diffpy/srreal/DebyePDFCalculator.hpp>
#include <diffpy/srreal/BondCalculator.hpp>
#include <diffpy/srreal/OverlapCalculator.hpp>
#include <diffpy/srreal/BVSCalculator.hpp>
#include <diffpy/srreal/PairCounter.hpp>
#include <diffpy/srreal/JeongPeakWidth.hpp>
#include <diffpy/srreal/ConstantPeakWidth.hpp>
#include <diffpy/srreal/GaussianProfile.hpp>
#include <diffpy/srreal/SFTXray.hpp>
#include <diffpy/srreal/ScaleEnvelope.hpp>
#include <diffpy/srreal/LinearBaseline.hpp>
#include <diffpy/srreal/ConstantRadiiTable.hpp>

namespace sim {

using namespace diffpy::srreal;
typedef boost::shared_ptr<PairQuantity> PQPtr;

// --- user-supplied components with fault and yield points --------------------

// make bond generators of user structures call back
extern bool g_simbnds;
extern bool g_loadfaults;       // let allocations fail while structures are restored

class SimBnds : public PeriodicStructureBondGenerator
{
    public:
        SimBnds(StructureAdapterConstPtr s) : PeriodicStructureBondGenerator(s) { }
        void rewind() override { seam::cbpoint("bnds.rewind"); PeriodicStructureBondGenerator::rewind(); }
        void selectAnchorSite(int i) override { seam::cbpoint("bnds.selectAnchorSite"); PeriodicStructureBondGenerator::selectAnchorSite(i); }
        const R3::Matrix& Ucartesian0() const override
        { seam::cbpoint("bnds.Ucartesian0"); return PeriodicStructureBondGenerator::Ucartesian0(); }
        const R3::Matrix& Ucartesian1() const override
        { seam::cbpoint("bnds.Ucartesian1"); return PeriodicStructureBondGenerator::Ucartesian1(); }
    protected:
        bool iterateSymmetry() override { bool rv = PeriodicStructureBondGenerator::iterateSymmetry(); seam::cbpoint("bnds.iterateSymmetry"); return rv; }
        void rewindSymmetry() override { seam::cbpoint("bnds.rewindSymmetry"); PeriodicStructureBondGenerator::rewindSymmetry(); }
        void updater1() override { seam::cbpoint("bnds.updater1"); PeriodicStructureBondGenerator::updater1(); }
};

class SimPeriodic : public PeriodicStructureAdapter
{
    public:
        typedef PeriodicStructureAdapter Base;
        std::map<std::string,double> cfg;
        StructureAdapterPtr clone() const override
        { seam::cbpoint("clone"); return StructureAdapterPtr(new SimPeriodic(*this)); }
        BaseBondGeneratorPtr createBondGenerator() const override
        {
            seam::cbpoint("createBondGenerator");
            if (g_simbnds) return BaseBondGeneratorPtr(new SimBnds(shared_from_this()));
            return Base::createBondGenerator();
        }
        double numberDensity() const override
        { seam::cbpoint("numberDensity"); return Base::numberDensity(); }
        const std::string& siteAtomType(int i) const override
        { seam::cbpoint("siteAtomType"); return Base::siteAtomType(i); }
        const R3::Vector& siteCartesianPosition(int i) const override
        { seam::cbpoint("siteCartesianPosition"); return Base::siteCartesianPosition(i); }
        double siteOccupancy(int i) const override
        { seam::cbpoint("siteOccupancy"); return Base::siteOccupancy(i); }
        int siteMultiplicity(int i) const override
        { seam::cbpoint("siteMultiplicity"); return Base::siteMultiplicity(i); }
        bool siteAnisotropy(int i) const override
        { seam::cbpoint("siteAnisotropy"); return Base::siteAnisotropy(i); }
        const R3::Matrix& siteCartesianUij(int i) const override
        { seam::cbpoint("siteCartesianUij"); return Base::siteCartesianUij(i); }
        StructureDifference diff(StructureAdapterConstPtr o) const override
        { seam::cbpoint("diff"); return Base::diff(o); }
        void customPQConfig(PairQuantity* pq) const override;
    private:
        friend class boost::serialization::access;
        template <class A> void serialize(A& ar, const unsigned int)
        { ar & boost::serialization::base_object<Base>(*this); ar & cfg; }
};

// user structure derived directly from the abstract adapter, it relies on
// defaults for multiplicities, density and, unless fast, for difference
class SimDirect : public StructureAdapter
{
    public:
        AtomicStructureAdapterPtr inner;
        bool fast = false;
        SimDirect() : inner(new AtomicStructureAdapter) { }
        StructureAdapterPtr clone() const override
        {
            seam::cbpoint("clone");
            boost::shared_ptr<SimDirect> rv(new SimDirect);
            rv->inner = boost::static_pointer_cast<AtomicStructureAdapter>(inner->clone());
            rv->fast = fast;
            return rv;
        }
        BaseBondGeneratorPtr createBondGenerator() const override
        { seam::cbpoint("createBondGenerator"); return BaseBondGeneratorPtr(new BaseBondGenerator(shared_from_this())); }
        int countSites() const override { return inner->countSites(); }
        const std::string& siteAtomType(int i) const override
        { seam::cbpoint("siteAtomType"); return inner->siteAtomType(i); }
        const R3::Vector& siteCartesianPosition(int i) const override
        { seam::cbpoint("siteCartesianPosition"); return inner->siteCartesianPosition(i); }
        double siteOccupancy(int i) const override
        { seam::cbpoint("siteOccupancy"); return inner->siteOccupancy(i); }
        bool siteAnisotropy(int i) const override
        { seam::cbpoint("siteAnisotropy"); return inner->siteAnisotropy(i); }
        const R3::Matrix& siteCartesianUij(int i) const override
        { seam::cbpoint("siteCartesianUij"); return inner->siteCartesianUij(i); }
        StructureDifference diff(StructureAdapterConstPtr o) const override
        {
            seam::cbpoint("diff");
            auto x = boost::dynamic_pointer_cast<const SimDirect>(o);
            if (!fast || !x) return StructureAdapter::diff(o);
            StructureDifference rv = inner->diff(x->inner);
            rv.stru0 = shared_from_this();
            rv.stru1 = o;
            return rv;
        }
    private:
        friend class boost::serialization::access;
        template <class A> void serialize(A& ar, const unsigned int)
        { ar & boost::serialization::base_object<StructureAdapter>(*this); ar & inner & fast; }
};

class SimJeong : public JeongPeakWidth
{
    public:
        PeakWidthModelPtr create() const override { return PeakWidthModelPtr(new SimJeong); }
        PeakWidthModelPtr clone() const override { return PeakWidthModelPtr(new SimJeong(*this)); }
        double calculate(const BaseBondGenerator& b) const override
        { seam::cbpoint("pwm.calculate"); return JeongPeakWidth::calculate(b); }
        double maxWidth(StructureAdapterPtr s, double a, double b) const override
        { seam::cbpoint("pwm.maxWidth"); return JeongPeakWidth::maxWidth(s, a, b); }
    private:
        friend class boost::serialization::access;
        template <class A> void serialize(A& ar, const unsigned int)
        { ar & boost::serialization::base_object<JeongPeakWidth>(*this); }
};

class SimGauss : public GaussianProfile
{
    public:
        double operator()(double x, double fwhm) const
        { seam::cbpoint("profile"); return GaussianProfile::operator()(x, fwhm); }
        double xboundlo(double fwhm) const
        { seam::cbpoint("profile.xboundlo"); return GaussianProfile::xboundlo(fwhm); }
        double xboundhi(double fwhm) const
        { seam::cbpoint("profile.xboundhi"); return GaussianProfile::xboundhi(fwhm); }
    private:
        friend class boost::serialization::access;
        template <class A> void serialize(A& ar, const unsigned int)
        { ar & boost::serialization::base_object<GaussianProfile>(*this); }
};

class SimSFT : public SFTXray
{
    public:
        ScatteringFactorTablePtr create() const { return ScatteringFactorTablePtr(new SimSFT); }
        ScatteringFactorTablePtr clone() const { return ScatteringFactorTablePtr(new SimSFT(*this)); }
        double standardLookup(const std::string& smbl, double q) const
        { seam::cbpoint("sft.standardLookup"); return SFTXray::standardLookup(smbl, q); }
    private:
        friend class boost::serialization::access;
        template <class A> void serialize(A& ar, const unsigned int)
        { ar & boost::serialization::base_object<SFTXray>(*this); }
};

class SimRadii : public ConstantRadiiTable
{
    public:
        SharedPtr create() const { return SharedPtr(new SimRadii); }
        SharedPtr clone() const { return SharedPtr(new SimRadii(*this)); }
        double standardLookup(const std::string& smbl) const
        {
            seam::cbpoint("radii.standardLookup");
            return ConstantRadiiTable::standardLookup(smbl);
        }
    private:
        friend class boost::serialization::access;
        template <class A> void serialize(A& ar, const unsigned int)
        { ar & boost::serialization::base_object<ConstantRadiiTable>(*this); }
};

class SimScale : public ScaleEnvelope
{
    public:
        PDFEnvelopePtr create() const { return PDFEnvelopePtr(new SimScale); }
        PDFEnvelopePtr clone() const { return PDFEnvelopePtr(new SimScale(*this)); }
        double operator()(const double& r) const
        { seam::cbpoint("envelope"); return ScaleEnvelope::operator()(r); }
    private:
        friend class boost::serialization::access;
        template <class A> void serialize(A& ar, const unsigned int)
        { ar & boost::serialization::base_object<ScaleEnvelope>(*this); }
};

class SimBaseline : public LinearBaseline
{
    public:
        PDFBaselinePtr create() const { return PDFBaselinePtr(new SimBaseline); }
        PDFBaselinePtr clone() const { return PDFBaselinePtr(new SimBaseline(*this)); }
        double operator()(const double& r) const
        { seam::cbpoint("baseline"); return LinearBaseline::operator()(r); }
    private:
        friend class boost::serialization::access;
        template <class A> void serialize(A& ar, const unsigned int)
        { ar & boost::serialization::base_object<LinearBaseline>(*this); }
};

// --- observations ------------------------------------------------------------

struct Obs
{
    std::string name;
    std::vector<double> v;
    std::vector<std::string> s;
    Obs(const std::string& n = "") : name(n) { }
    Obs(const std::string& n, const std::vector<double>& x) : name(n), v(x) { }
};

struct Outcome
{
    bool skipped = false;
    std::string exc;        // exception type, empty when none
    std::string what;
    std::vector<Obs> obs;
    int calc = -1;          // calculator slot for observations
    std::string pack() const;
    static Outcome unpack(const std::string& s, size_t& pos);
};

enum Kind { KPDF, KDPDF, KDSUM, KBOND, KOVL, KBVS, KPC, NKIND };
const char* kindname(int k);
inline bool fastkind(int k) { return k <= KBOND; }

struct CalcMeta
{
    int kind = -1;
    bool dirty = true;      // needs eval before derived results are defined
    bool uncertain = false; // assigned structure unknown after an abandoned failure
    int vev = 1;            // evaluator type as requested by the history
    int nparts = 0;         // parallel parts expected and still missing
    int nmissing = 0;
    template <class A> void serialize(A& ar, const unsigned int)
    { ar & kind & dirty & uncertain & vev & nparts & nmissing; }
};

class World
{
    public:
        std::vector<StructureAdapterPtr> stru;
        std::vector<PQPtr> calc;
        std::vector<CalcMeta> meta;
        // use just the BASIC evaluator, the reference of incremental sums
        bool basiconly = false;
        World() { stru.resize(16); calc.resize(16); meta.resize(16); }

        Outcome apply(const Op& op);
        bool has(long c) const { return c >= 0 && c < long(calc.size()) && calc[c]; }
        bool hass(long c) const { return c >= 0 && c < long(stru.size()) && stru[c]; }
        // observations of a calculator; which: -1 all, 0 value, 1 derived, 2 attributes
        void observe(int c, int which, std::vector<Obs>& obs, bool dirty) const;
        void markStructure(const StructureAdapterPtr& s);
        void markComponent(const void* p);
        std::string save() const;
        void load(const std::string&);
        // compact description of abstract state for coverage
        std::string feature(const Op& op, const Outcome& o) const;

    private:
        bool dostru(const Op& op);
        bool docalc(const Op& op, Outcome& out);
        friend class boost::serialization::access;
        template <class A> void serialize(A& ar, const unsigned int)
        { ar & stru & calc & meta & basiconly; }
};

// log operation and its outcome
void logOutcome(Ctx& ctx, const Op& op, const Outcome& o, const char* tag = "");
// preload data tables, so that runs do not depend on them
void preloadTables();

AtomicStructureAdapter* asAtomic(const StructureAdapterPtr& s);
StructureAdapterPtr sourceOf(const StructureAdapterPtr& s);

// tolerance comparison with memory of the largest magnitudes seen
struct Comparer
{
    double rtol = 1e-8;
    bool overlapAsSet = false;
    std::map<std::string,double> hmax;
    // returns an empty string on agreement, else description; cls gets class
    std::string compare(const Outcome& a, const Outcome& b, int kind, std::string& cls);
};

// --- generation ---------------------------------------------------------------

struct GenOptions
{
    std::vector<int> kinds;         // calculator kinds to use
    bool simcomponents = false;     // use user-supplied components
    bool badatoms = false;
    bool cfgstructures = true;      // structures that configure calculators
    bool sharing = true;
    bool masks = true;
    bool evaltoggle = true;
    bool wrappers = true;
    bool crystals = true;
    bool aliases = true;
    int evtype = 2;                 // initial evaluator type, -1 random
    int nstru = 0, ncalc = 0;       // 0: random
    int nsteps = 12;
    double evalp = 0.6;             // evaluation after a change
    bool fastfriendly = true;       // structures with at least 4 sites
    int maxatoms = 10;
    bool tables = true;
    bool grid = true;               // exact ties, many atoms in some histories
};

// actions of the generator, weights can be set for each
enum Action { AEDIT, AATTR, ACOMP, AMASK, AEVTYPE, ASTRU, AEVAL, ASHARE, ANEWCALC,
    AQUERY, ATABLE, ASETSTRU, NACTION };

class Gen
{
    public:
        Rng rng;
        GenOptions o;
        std::vector<Op> ops;
        struct S { int kind; int n; int src; };
        struct C { int kind; int last; };
        std::vector<S> ss;
        std::vector<C> cc;
        std::vector<double> wts;
        std::vector<std::string> types, pool;
        bool neutral = false, electron = true;
        Gen(uint64_t seed, const GenOptions& opt);
        void add(const std::string& n, std::vector<long> i = {},
                std::vector<double> d = {}, std::vector<std::string> s = {})
        { ops.push_back(Op(n, i, d, s)); }
        void setup();               // initial structures and calculators
        void generate();            // setup and nsteps steps, ends with queries of all
        void newStructure(int slot, int kind);
        void newCalc(int slot, int kind);
        void addAtom(int slot, int pos);
        void editStructure(int slot);
        void configAttr(int c);
        void configComp(int c);
        void configTable(int c);
        void maskCalc(int c);
        void share(int c);
        void step();
        void evalq(int c);
        void query(int c);
        int anystru() { return rng.below(int(ss.size())); }
        int anycalc() { return rng.below(int(cc.size())); }
        int struFor(int c);
        std::string atomtype();
        // in some histories positions are multiples of 0.5 in cells of powers
        // of 2, where ties of distances and directions are exact
        bool grid = false, special = true, big = false, direct = false;
        double lat() { double x = rng.uni(4.2, 6.5); return !grid ? x : x < 5.8 ? 4 : 8; }
        void snap(double* x) const { if (grid) for (int k = 0; k < 3; ++k) x[k] = 0.5 * std::round(2 * x[k]); }
        int root(int slot) const;
        int roots() const;
};

const std::vector<std::string>& goodtypes();

}   // namespace sim
BOOST_CLASS_EXPORT_KEY(sim::SimPeriodic)
BOOST_CLASS_EXPORT_KEY(sim::SimDirect)
BOOST_CLASS_EXPORT_KEY(sim::SimJeong)
BOOST_CLASS_EXPORT_KEY(sim::SimGauss)
BOOST_CLASS_EXPORT_KEY(sim::SimSFT)
BOOST_CLASS_EXPORT_KEY(sim::SimRadii)
BOOST_CLASS_EXPORT_KEY(sim::SimScale)
BOOST_CLASS_EXPORT_KEY(sim::SimBaseline)
#endif
