// Random histories over structures and calculators.
#include "world.hpp"
#include <cmath>
namespace sim {
using namespace std;

const vector<string>& goodtypes()
{
    static const vector<string> t = {"C", "Ti4+", "O2-", "Na1+", "Cl1-", "H", "Si"};
    return t;
}

Gen::Gen(uint64_t seed, const GenOptions& opt) : rng(seed), o(opt)
{
    static const double base[NACTION] = {5, 3, 1.5, 1.5, 0.6, 1.0, 2, 0.5, 0.4, 0.7, 0.8, 0.4};
    wts.assign(base, base + NACTION);
    // swarm: every history emphasizes and omits some actions
    for (auto& w : wts)
    {
        double u = rng.uni();
        if (u < 0.2) w = 0;
        else if (u > 0.8) w *= 4;
    }
    if (wts[AEDIT] == 0 && rng.chance(0.8)) wts[AEDIT] = base[AEDIT];
    wts[AEVAL] = max(wts[AEVAL], 1.0);
    if (!o.masks) wts[AMASK] = 0;
    if (!o.evaltoggle) wts[AEVTYPE] = 0;
    if (!o.sharing) wts[ASHARE] = 0;
    if (!o.tables) wts[ATABLE] = 0;
    // a few types make equal sites more likely
    int nt = rng.range(1, 3);
    neutral = rng.chance(0.25);
    static const vector<string> nn = {"C", "H", "Si", "Ni"};
    pool = neutral ? nn : goodtypes();
    for (int k = 0; k < nt; ++k) types.push_back(rng.pick(pool));
    // electron scattering is infinite at Q=0, not usable in PDFCalculator
    for (int k : o.kinds) if (k == KPDF) electron = false;
    Rng gr(seed ^ 0x67726964);
    grid = o.grid && gr.chance(0.15);
    // sites in special positions have bonds of different multiplicities when
    // seen from the other side, to which the Debye cutoff is applied
    bool debye = false;
    for (int k : o.kinds) debye = debye || k == KDPDF || k == KDSUM;
    special = !debye && gr.chance(0.5);
    big = o.grid && !grid && gr.chance(0.03);
    direct = o.grid && gr.chance(0.1);
}

string Gen::atomtype()
{
    if (o.badatoms && rng.chance(0.04)) return "Xx9";
    if (rng.chance(0.05)) return rng.pick(pool);
    return rng.pick(types);
}

int Gen::root(int slot) const
{
    for (int k = 0; k < 8 && ss[slot].src >= 0; ++k) slot = ss[slot].src;
    return slot;
}

static vector<double> atomdata(Rng& rng, double box)
{
    vector<double> d(10);
    for (int k = 0; k < 3; ++k) d[k] = rng.uni(0, box);
    d[3] = rng.chance(0.3) ? rng.uni(0.2, 1.0) : 1.0;
    double u = rng.uni();
    double ub = u < 0.15 ? 0.0 : rng.uni(0.002, 0.03);
    for (int k = 4; k < 7; ++k) d[k] = ub * rng.uni(0.8, 1.2);
    for (int k = 7; k < 10; ++k) d[k] = ub * rng.uni(-0.2, 0.2);
    return d;
}

void Gen::addAtom(int slot, int pos)
{
    int r = root(slot);
    double box = ss[r].kind == 0 ? (big ? 12.0 : 6.0) : 5.0;
    vector<double> d = atomdata(rng, box);
    snap(d.data());
    static const double offset[] = {0.125, 0.1875, 0.3125};
    for (int k = 0; k < 3 && grid && !special; ++k) d[k] += offset[k];
    add("s.add", {slot, pos, rng.chance(0.3)}, d, {atomtype()});
    ss[r].n += 1;
}

void Gen::newStructure(int slot, int kind)
{
    if (slot >= int(ss.size())) ss.resize(slot + 1, S{0, 0, -1});
    ss[slot] = S{kind, 0, -1};
    if (kind == 6) { add("s.new", {slot, 6}); return; }
    vector<double> lp;
    if (kind != 0)
    {
        bool skew = kind != 2 && rng.chance(0.4) && !grid;
        lp = {lat(), lat(), lat(), 90, 90, 90};
        if (skew) for (int k = 3; k < 6; ++k) lp[k] = rng.uni(75, 105);
    }
    if (kind == 0 && direct) add("s.new", {slot, 7, slot % 3 > 0});
    else add("s.new", {slot, kind, 0}, lp);
    if (kind == 2) add("s.group", {slot, rng.range(0, 6)});
    int n = kind == 2 ? rng.range(2, 5) : kind == 0 ? rng.range(4, o.maxatoms + 3) : rng.range(3, o.maxatoms);
    if (!o.fastfriendly && rng.chance(0.3)) n = rng.range(0, 3);
    if (big && n > 3) n = kind == 2 ? n + 1 : kind == 0 ? rng.range(20, 70) : rng.range(8, 14);
    for (int k = 0; k < n; ++k) addAtom(slot, k);
}

static double rmaxfor(Rng& rng, int kind)
{
    switch (kind)
    {
        case KPDF: return rng.uni(3, 7);
        case KDPDF: return rng.uni(3, 6);
        case KDSUM: return rng.uni(2, 6);
        case KBOND: return rng.uni(2, 5);
        case KPC: return rng.uni(2, 7);
        default: return 0;
    }
}

void Gen::newCalc(int slot, int kind)
{
    if (slot >= int(cc.size())) cc.resize(slot + 1, C{0, -1});
    cc[slot] = C{kind, -1};
    int ev = o.evtype > 0 ? o.evtype : rng.pick(vector<int>{2, 2, 3, 1});
    add("c.new", {slot, kind, ev}, {rmaxfor(rng, kind)});
    // keep the evaluations cheap
    if (kind == KPDF) add("c.attr", {slot}, {rng.uni(0.03, 0.15)}, {"rstep"});
    if (kind == KDPDF)
    {
        add("c.attr", {slot}, {rng.uni(0.05, 0.2)}, {"rstep"});
        add("c.attr", {slot}, {rng.uni(4, big ? 6 : 12)}, {"qmax"});
        if (big || grid) add("c.attr", {slot}, {rng.uni(0, 3)}, {"maxextension"});
    }
    if (kind == KDSUM)
    {
        add("c.q", {slot, 1}, {rng.uni(4, 12)});
        if (rng.chance(0.5)) add("c.q", {slot, 2}, {rng.uni(0.05, 0.4)});
    }
    if (kind == KOVL)
    {
        for (auto& t : types) add("c.radcust", {slot}, {rng.uni(0.6, 1.7)}, {t});
        if (rng.chance(0.5)) add("c.raddef", {slot}, {rng.uni(0.5, 1.5)});
        else add("c.raddef", {slot}, {0.9});
    }
    if (o.simcomponents)
    {
        if (kind == KPDF || kind == KDPDF || kind == KDSUM)
        {
            if (rng.chance(0.5)) add("c.pwtype", {slot}, {}, {"sim"});
            if (rng.chance(0.5)) add("c.sfttype", {slot}, {}, {"sim"});
        }
        if (kind == KPDF && rng.chance(0.5)) add("c.proftype", {slot}, {}, {"sim"});
        if (kind == KPDF && rng.chance(0.3)) add("c.basetype", {slot}, {}, {"sim"});
        if ((kind == KPDF || kind == KDPDF) && rng.chance(0.3)) add("c.envtype", {slot}, {}, {"sim"});
        if (kind == KOVL && rng.chance(0.5))
        {
            add("c.radtype", {slot}, {}, {"sim"});
            add("c.raddef", {slot}, {rng.uni(0.5, 1.5)});
        }
    }
}

void Gen::setup()
{
    int ns = o.nstru ? o.nstru : rng.range(1, 3);
    int nc = o.ncalc ? o.ncalc : (rng.chance(0.6) ? 1 : rng.range(2, 3));
    for (int k = 0; k < ns; ++k)
    {
        vector<double> w = {4, 3, o.crystals ? 3.0 : 0.0, (o.cfgstructures || o.simcomponents) ? 3.0 : 0.5};
        if (o.simcomponents) w[3] = 6;
        newStructure(k, rng.weighted(w));
    }
    for (int k = 0; k < nc; ++k) newCalc(k, rng.pick(o.kinds));
}

int Gen::struFor(int c)
{
    if (cc[c].last >= 0 && rng.chance(0.75)) return cc[c].last;
    return anystru();
}

void Gen::editStructure(int slot)
{
    int r = root(slot);
    S& s = ss[r];
    if (s.kind == 6) { return; }
    // number of edits before the next evaluation
    int m = rng.chance(0.7) ? 1 : rng.range(2, big ? 30 : 4);
    const int nk = big ? (s.kind == 0 ? 80 : 18) : 16;
    int focus = rng.chance(0.5) ? rng.below(nk) : -1;
    while (m--)
    {
        int k = focus >= 0 ? focus : rng.below(nk);
        switch (rng.weighted({4, 1.5, 1.5, 1.5, 1.5, 1.5, 1, 0.5, 0.5, 0.1}))
        {
            case 0:
            {
                double a = rng.pick(vector<double>{1.0, 0.1, 1e-3, 3.0});
                if (grid) a = 1.5;
                vector<double> d = {rng.uni(-a, a), rng.uni(-a, a), rng.uni(-a, a)};
                snap(d.data());
                add("s.mov", {slot, k}, d);
                break;
            }
            case 1: if (s.n < nk) addAtom(slot, rng.below(8)); break;
            case 2: if (s.n > (o.fastfriendly ? 4 : 0)) { add("s.del", {slot, k}); s.n--; } break;
            case 3: add("s.type", {slot, k}, {}, {atomtype()}); break;
            case 4: add("s.occ", {slot, k}, {rng.chance(0.2) ? 0.0 : rng.chance(0.3) ? 1.0 : rng.uni(0.1, 1.0)}); break;
            case 5:
            {
                vector<double> d = atomdata(rng, 1);
                add("s.uij", {slot, k, rng.chance(0.4)}, vector<double>(d.begin() + 4, d.end()));
                break;
            }
            case 6: add("s.swap", {slot, k, rng.below(nk)}); break;
            case 7:
                if (s.kind == 0) break;
                if (!grid && rng.chance(0.4))
                    add("s.latmod", {slot, rng.below(3), rng.below(5)}, {rng.pick(vector<double>{1, -0.5, 1e-2, 1e-4}) * rng.uni(0.3, 1)});
                else if (s.kind != 2 && rng.chance(0.4))
                    add("s.lat", {slot}, {lat(), lat(), lat(), grid ? 90 : rng.uni(75, 105), grid ? 90 : rng.uni(75, 105), grid ? 90 : rng.uni(75, 105)});
                else add("s.lat", {slot}, {lat(), lat(), lat(), 90, 90, 90});
                break;
            case 8:
                if (s.kind == 2 && rng.chance(0.2)) add("s.symprec", {slot}, {rng.pick(vector<double>{5e-5, 1e-4, 1e-3})});
                else if (s.kind == 2 && rng.chance(0.1)) add("s.symclr", {slot});
                else if (s.kind == 2) add("s.group", {slot, rng.range(0, 6)});
                else if (s.kind == 3 && o.cfgstructures)
                {
                    static const vector<string> nm = {"qbroad", "delta1", "delta2", "scale", "qdamp",
                        "qmax", "rmax", "rmin", "peakprecision", "rstep", "qmin"};
                    string a = rng.pick(nm);
                    double v = a == "qbroad" ? rng.uni(0, 0.1) : a == "delta1" ? rng.uni(0, 0.5)
                        : a == "delta2" ? rng.uni(0, 1.5) : a == "scale" ? rng.uni(0.5, 2)
                        : a == "qdamp" ? rng.uni(0, 0.1) : a == "qmax" ? rng.uni(5, 12)
                        : a == "rmax" ? rng.uni(3, 6) : a == "rmin" ? rng.uni(0, 2)
                        : a == "rstep" ? rng.uni(0.05, 0.2) : a == "qmin" ? rng.uni(0, 1.5) : 1e-5;
                    if (rng.chance(0.15)) add("s.cfgclr", {slot});
                    else add("s.cfg", {slot}, {v}, {a});
                }
                break;
            default:
                add("s.clear", {slot});
                s.n = 0;
                for (int j = rng.range(o.fastfriendly ? 4 : 0, 6); j > 0; --j) addAtom(slot, 0);
                break;
        }
    }
}

void Gen::configAttr(int c)
{
    int kind = cc[c].kind;
    auto set = [&](const string& n, double v) { add("c.attr", {c}, {v}, {n}); };
    auto zero = [&](double v) { return rng.chance(0.15) ? 0.0 : v; };
    vector<string> nm;
    if (kind == KPDF || kind == KDPDF)
    {
        nm = {"rmin", "rmax", "rmax", "rstep", "qmin", "qmax", "maxextension", "delta1", "delta2",
            "qbroad", "qbroad_seperable", "width", "qdamp", "scale", "spdiameter", "stepcut"};
        if (kind == KPDF) { nm.push_back("peakprecision"); }
        else { nm.push_back("debyeprecision"); nm.push_back("qstep"); nm.push_back("optq"); }
    }
    else if (kind == KDSUM)
        nm = {"rmin", "rmax", "qmin", "qmax", "qstep", "debyeprecision", "width", "delta2", "delta1", "qbroad"};
    else if (kind == KBOND) nm = {"rmin", "rmax", "rmax", "cone", "coneoff"};
    else if (kind == KBVS) nm = {"rmin", "valenceprecision", "rmaxb"};
    else if (kind == KOVL) nm = {"rmin", "rmaxo"};
    else nm = {"rmin", "rmax"};
    string a = rng.pick(nm);
    // empty and degenerate ranges
    const bool odd = rng.chance(0.06);
    if (odd && a == "rmin") set(a, rng.uni(2, 9));
    else if (odd && a == "rmax") set(a, rng.chance(0.2) ? 0.0 : rng.uni(0.05, 2));
    else if (odd && kind == KDSUM && a == "qmin") add("c.q", {c, 0}, {rng.uni(2, 14)});
    else if (odd && kind == KDSUM && a == "qmax") add("c.q", {c, 1}, {rng.chance(0.2) ? 0.0 : rng.uni(0.1, 3)});
    else if (odd && a == "qmin") set(a, rng.uni(2, 14));
    else if (odd && a == "rstep") set(a, rng.uni(0.2, kind == KDPDF ? 0.4 : 1.5));
    else if (odd && a == "qmax") set(a, rng.uni(0.5, 4));
    else if (a == "rmin") set(a, zero(rng.uni(0, 2)));
    else if (a == "rmaxb") set("rmax", rng.chance(0.3) ? 100 : rng.uni(2, 6));
    else if (a == "rmaxo") set("rmax", rng.chance(0.3) ? 100 : rng.uni(1, 4));
    else if (a == "rmax") set(a, rmaxfor(rng, kind));
    else if (a == "rstep") set(a, kind == KPDF ? rng.uni(0.02, 0.15) : rng.uni(0.05, 0.2));
    else if (kind == KDSUM && (a == "qmin" || a == "qmax" || a == "qstep"))
        add("c.q", {c, a == "qmin" ? 0 : a == "qmax" ? 1 : 2},
                {a == "qmin" ? zero(rng.uni(0, 2)) : a == "qmax" ? rng.uni(4, 12) : rng.uni(0.05, 0.4)});
    else if (a == "qmin") set(a, zero(rng.uni(0, 1.5)));
    else if (a == "qmax") set(a, kind == KPDF ? zero(rng.uni(4, 25)) : rng.uni(4, 12));
    else if (a == "qstep") set(a, rng.uni(0.1, 0.4));
    else if (a == "optq") add("c.optq", {c});
    else if (a == "maxextension") set(a, zero(rng.uni(0, big || grid ? 3 : 10)));
    else if (a == "delta1") set(a, zero(rng.uni(0, 0.5)));
    else if (a == "delta2") set(a, zero(rng.uni(0, 1.5)));
    else if (a == "qbroad" || a == "qbroad_seperable") set(a, zero(rng.uni(0, 0.1)));
    else if (a == "width") set(a, rng.uni(0.05, 0.4));
    else if (a == "qdamp") set(a, zero(rng.uni(0, 0.1)));
    else if (a == "scale") set(a, rng.uni(0.5, 2));
    else if (a == "spdiameter") set(a, zero(rng.uni(8, 30)));
    else if (a == "stepcut") set(a, zero(rng.uni(3, 10)));
    else if (a == "peakprecision") set(a, pow(10., rng.uni(-6, -3)));
    else if (a == "debyeprecision") set(a, pow(10., rng.uni(-8, -4)));
    else if (a == "valenceprecision") set(a, pow(10., rng.uni(-6, -2)));
    else if (a == "cone") add("c.cone", {c}, {rng.uni(-1, 1), rng.uni(-1, 1), rng.uni(-1, 1), rng.uni(20, 150)});
    else if (a == "coneoff") add("c.coneoff", {c});
}

void Gen::configComp(int c)
{
    int kind = cc[c].kind;
    vector<string> k;
    if (kind == KPDF) k = {"pw", "prof", "base", "env", "env", "envpop", "envclr", "sft"};
    else if (kind == KDPDF) k = {"pw", "env", "envpop", "envclr", "sft"};
    else if (kind == KDSUM) k = {"pw", "sft"};
    else if (kind == KOVL) k = {"rad"};
    else return configAttr(c);
    string a = rng.pick(k);
    bool sim = o.simcomponents && rng.chance(0.4);
    if (a == "pw") add("c.pwtype", {c}, {}, {sim ? "sim" : rng.pick(vector<string>{"constant", "debye-waller", "jeong"})});
    if (a == "pw" && rng.chance(0.4)) add("c.attr", {c}, {rng.uni(0.05, 0.4)}, {"width"});
    if (a == "prof") add("c.proftype", {c}, {}, {sim ? "sim" : rng.pick(vector<string>{"gaussian", "croppedgaussian"})});
    if (a == "base") add("c.basetype", {c}, {}, {sim ? "sim" : rng.pick(vector<string>{"zero", "linear"})});
    static const vector<string> env = {"qresolution", "scale", "sphericalshape", "stepcut"};
    if (a == "env") add("c.envtype", {c}, {}, {sim ? "sim" : rng.pick(env)});
    if (a == "envpop") add("c.envpop", {c}, {}, {rng.pick(env)});
    if (a == "envclr") add("c.envclr", {c});
    if (a == "sft") add("c.sfttype", {c}, {}, {sim ? "sim" : rng.pick(vector<string>{"xray", electron ? "electron" : "xray", "neutron", "electronnumber"})});
    if (a == "rad")
    {
        add("c.radtype", {c}, {}, {sim ? "sim" : "constant"});
        add("c.raddef", {c}, {rng.uni(0.5, 1.5)});
    }
}

void Gen::configTable(int c)
{
    int kind = cc[c].kind;
    string t = rng.pick(types);
    if (kind <= KDSUM)
    {
        if (rng.chance(0.3)) add("c.sfreset", {c, rng.chance(0.3)}, {}, {t});
        else add("c.sfcust", {c, rng.chance(0.6)}, {rng.uni(0.5, 3), rng.uni(0, 2)}, {t, rng.pick(pool)});
    }
    else if (kind == KOVL)
    {
        if (rng.chance(0.3)) add("c.radreset", {c, rng.chance(0.3)}, {}, {t});
        else if (rng.chance(0.3)) add("c.raddef", {c}, {rng.uni(0.4, 1.5)});
        else add("c.radcust", {c}, {rng.uni(0.5, 1.8)}, {t});
    }
    else if (kind == KBVS)
    {
        double u = rng.uni();
        string t2 = rng.pick(types);
        auto val = [](const string& s) { return s == "Ti4+" ? 4 : s == "O2-" ? -2 : s == "Na1+" ? 1 : s == "Cl1-" ? -1 : 0; };
        // parameters have bare symbols, the valences are separate
        auto bare = [&](const string& s) { return rng.chance(0.1) ? s : s.substr(0, s.find_first_of("0123456789+-")); };
        if (t == t2 && rng.chance(0.7)) t2 = rng.pick(types);
        if (u < 0.5) add("c.bvcust", {c, val(t), val(t2)}, {rng.uni(1.2, 2.5), rng.uni(0.25, 0.45)}, {bare(t), bare(t2)});
        else if (u < 0.7) add("c.bvreset", {c, val(t), val(t2), rng.chance(0.3)}, {}, {bare(t), bare(t2)});
        else if (u < 0.9) add("c.bvval", {c, rng.range(-2, 4), 0}, {}, {t});
        else add("c.bvval", {c, 0, 1}, {}, {t});
    }
}

void Gen::maskCalc(int c)
{
    int n = 8;
    if (cc[c].last >= 0) n = max(2, ss[root(cc[c].last)].n);
    const long ALL = PairQuantity::ALLATOMSINT;
    switch (rng.weighted({4, 1.5, 3, 1.2, 0.8, 0.8}))
    {
        case 0: add("c.pmask", {c, rng.below(n), rng.below(n), rng.chance(0.4)}); break;
        case 1: add("c.pmask", {c, rng.below(n), ALL, rng.chance(0.5)}); break;
        case 2: add("c.tmask", {c, rng.chance(0.4)}, {}, {rng.pick(types), rng.pick(types)}); break;
        case 3: add("c.tmask", {c, rng.chance(0.5)}, {}, {rng.pick(types), PairQuantity::ALLATOMSSTR}); break;
        case 4: add("c.mall", {c, rng.chance(0.7)}); break;
        default: add("c.minv", {c}); break;
    }
}

void Gen::share(int c)
{
    if (cc.size() < 2) return;
    add("c.share", {c, anycalc(), rng.below(6), rng.below(4)});
}

void Gen::query(int c)
{
    add("q", {c, rng.chance(0.6) ? -1 : rng.below(3)});
}

void Gen::evalq(int c)
{
    int s = struFor(c);
    if (cc[c].last >= 0 && rng.chance(0.15)) add("c.eval0", {c});
    else { add("c.eval", {c, s}); cc[c].last = s; }
    query(c);
}

void Gen::step()
{
    int c = anycalc();
    int k = rng.weighted(wts);
    switch (k)
    {
        case AEDIT: editStructure(cc[c].last >= 0 && rng.chance(0.85) ? cc[c].last : anystru()); break;
        case AATTR: configAttr(c); if (rng.chance(0.2)) configAttr(c); break;
        case ACOMP: configComp(c); break;
        case AMASK: maskCalc(c); while (rng.chance(0.4)) maskCalc(c); break;
        case AEVTYPE: add("c.evtype", {c, rng.pick(vector<int>{1, 2, 2, 3})}); break;
        case ASTRU:
        {
            int slot = rng.range(0, 4);
            int src = anystru();
            double u = rng.uni();
            if (u < 0.4)
            {
                if (slot >= int(ss.size())) slot = int(ss.size());
                int n0 = ss[root(src)].n, kd = ss[root(src)].kind;
                if (slot == int(ss.size())) ss.push_back(S{0, 0, -1});
                if (slot == src) break;
                if (rng.chance(0.25) && kd != 6)
                {
                    kd = rng.range(0, 3);
                    if (!o.crystals && kd == 2) kd = 1;
                    add("s.conv", {slot, src, kd, rng.range(0, 6)}, {lat(), lat(), lat()});
                    // evaluate both at any place of the history
                    if (rng.chance(0.5)) { add("c.eval", {c, src}); add("q", {c, -1}); add("c.eval", {c, slot}); add("q", {c, -1}); cc[c].last = slot; }
                }
                else add("s.copy", {slot, src});
                ss[slot] = S{kd, n0, -1};
                // copies get usually modified a little
                if (rng.chance(0.7)) editStructure(slot);
            }
            else if (u < 0.7)
            {
                slot = min<int>(slot, int(ss.size()));
                newStructure(slot, rng.weighted({4, 3, o.crystals ? 3.0 : 0.0, 2, 0, 0, 0.3}));
            }
            else if (o.wrappers && u < 0.9)
            {
                slot = min<int>(slot, int(ss.size()));
                if (slot == src) break;
                if (slot == int(ss.size())) ss.push_back(S{0, 0, -1});
                int w = rng.chance(0.5) ? 4 : 5;
                // slots cannot wrap themselves
                if (root(src) == slot) break;
                add("s.new", {slot, w, src});
                ss[slot] = S{w, 0, src};
            }
            else if (o.aliases)
            {
                slot = min<int>(slot, int(ss.size()));
                if (slot == src || root(src) == slot) break;
                if (slot == int(ss.size())) ss.push_back(S{0, 0, -1});
                add("s.alias", {slot, src});
                ss[slot] = S{ss[src].kind, 0, src};
            }
            break;
        }
        case AEVAL: evalq(c); return;
        case ASHARE: share(c); break;
        case ANEWCALC:
            if (o.sharing && rng.chance(0.6))
            {
                int t = rng.below(min(4, int(cc.size()) + 1));
                if (t == c) break;
                if (t == int(cc.size())) cc.push_back(C{0, -1});
                add("c.copy", {c, t, rng.chance(0.5)});
                cc[t] = cc[c];
            }
            else newCalc(c, rng.pick(o.kinds));
            break;
        case AQUERY: query(c); return;
        case ATABLE: configTable(c); break;
        case ASETSTRU: { int s = struFor(c); add("c.setstru", {c, s}); cc[c].last = s; break; }
    }
    if (rng.chance(o.evalp)) evalq(c);
}

void Gen::generate()
{
    setup();
    for (int c = 0; c < int(cc.size()); ++c) evalq(c);
    for (int k = 0; k < o.nsteps; ++k) step();
    for (int c = 0; c < int(cc.size()); ++c)
    {
        int s = struFor(c);
        add("c.eval", {c, s});
        add("q", {c, -1});
    }
}

}   // namespace sim
