// C20: lattices and enumerators of lattice points over any history of changes,
// refused changes, copies and restores, against plain geometry.
#include "core.hpp"
#include "seams.hpp"
#include <algorithm>
#include <cmath>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <boost/scoped_ptr.hpp>
#include <diffpy/serialization.ipp>
#include <diffpy/mathutils.hpp>
#include <diffpy/srreal/Lattice.hpp>
#include <diffpy/srreal/PointsInSphere.hpp>
namespace sim {
using namespace std;
using namespace diffpy::srreal;

// par  i=slot d=6           lattice parameters
// base i=slot,kind d=9      base vectors; kind 0 plain, 1 template, 2 constructor
// make i=slot,kind d=6      new object
// copy i=to,from,how        how 0 assignment, 1 copy
// save i=slot,arch,failat   snapshot; failat: failing allocation
// load i=slot,arch,failat d=fraction   restore; fraction below 1: incomplete
// conv i=slot,slot2 d=18    conversions
// gen  i=gen,slot,kind,ctor d=2  new enumerator over range
// gcopy i=to,from
// adv  i=gen,n   rew i=gen   fin i=gen
static const int NS = 4, NG = 4, NA = 3;

typedef long double LD;
struct W3 { LD x[3]; };
struct X3 { LD m[3][3]; };
static X3 mul(const X3& a, const X3& b)
{
    X3 r;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
    { r.m[i][j] = 0; for (int k = 0; k < 3; ++k) r.m[i][j] += a.m[i][k] * b.m[k][j]; }
    return r;
}
static X3 tr(const X3& a) { X3 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.m[i][j] = a.m[j][i]; return r; }
static LD det(const X3& a)
{
    const auto& m = a.m;
    return m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
        + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]);
}
static X3 inv(const X3& a)
{
    X3 r;
    const LD d = det(a);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
    {
        int i1 = (i + 1) % 3, i2 = (i + 2) % 3, j1 = (j + 1) % 3, j2 = (j + 2) % 3;
        r.m[j][i] = (a.m[i1][j1] * a.m[i2][j2] - a.m[i1][j2] * a.m[i2][j1]) / d;
    }
    return r;
}
static const LD PI = 3.14159265358979323846264338327950288L;
static LD rad(LD x) { return x * PI / 180; }

// standard base: c along z, b in the yz plane
static X3 stdbase(const LD* p)
{
    LD ca = cos(rad(p[3])), cb = cos(rad(p[4])), cg = cos(rad(p[5])), sa = sin(rad(p[3]));
    LD ay = (cg - ca * cb) / sa, ax = sqrt(max(LD(0), 1 - ay * ay - cb * cb));
    X3 r = {{{p[0] * ax, p[0] * ay, p[0] * cb}, {0, p[1] * sa, p[1] * ca}, {0, 0, p[2]}}};
    return r;
}

struct ModelLat
{
    LD p[6];        // edges and angles
    X3 B, R;        // base in rows, base = stdbase * R
    void par(const double* d)
    {
        for (int k = 0; k < 6; ++k) p[k] = d[k];
        B = mul(stdbase(p), R);
    }
    void base(const double* d)
    {
        for (int i = 0; i < 9; ++i) B.m[i / 3][i % 3] = d[i];
        for (int i = 0; i < 3; ++i) p[i] = sqrt(dot(i, i));
        for (int i = 0; i < 3; ++i) { int j = (i + 1) % 3, k = (i + 2) % 3; p[3 + i] = acos(dot(j, k) / p[j] / p[k]) * 180 / PI; }
        R = mul(inv(stdbase(p)), B);
    }
    LD dot(int i, int j) const { return B.m[i][0] * B.m[j][0] + B.m[i][1] * B.m[j][1] + B.m[i][2] * B.m[j][2]; }
    static ModelLat unit()
    {
        ModelLat r;
        X3 e = {{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}};
        r.R = e;
        double d[6] = {1, 1, 1, 90, 90, 90};
        r.par(d);
        return r;
    }
};

// enumerator and what it has to give
struct Enum
{
    int kind = -1;      // 0 sphere, 1 Q range, 2 d range, 3 sphere of the reciprocal lattice
    shared_ptr<PointsInSphere> s;
    shared_ptr<ReflectionsInQminQmax> q;
    shared_ptr<ReflectionsInDmaxDmin> d;
    X3 G;               // metrics of enumerated lattice
    LD lo, hi;          // range of lengths
    double a0, a1;      // arguments
    vector<array<int,3>> seen;
    bool finished() const { return s ? s->finished() : q ? q->finished() : d->finished(); }
    void next() { if (s) s->next(); else if (q) q->next(); else d->next(); }
    void rewind() { if (s) s->rewind(); else if (q) q->rewind(); else d->rewind(); }
};

struct T20
{
    Ctx& ctx;
    Lattice lat[NS];
    ModelLat mod[NS];
    string arch[NA];
    ModelLat amod[NA];
    bool aset[NA] = {};
    Enum en[NG];
    string where;
    T20(Ctx& c) : ctx(c) { for (auto& m : mod) m = ModelLat::unit(); }

    void near(const char* what, double got, LD exp, LD scale)
    {
        if (!(fabs(got - double(exp)) <= 1e-9 * double(scale))) ctx.fail(what, "%s: %.12g, expected %.12g", where.c_str(), got, double(exp));
    }
    static X3 toX(const R3::Matrix& a) { X3 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.m[i][j] = a(i, j); return r; }
    void near(const char* what, const R3::Matrix& a, const X3& e, LD scale)
    { for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) near(what, a(i, j), e.m[i][j], scale); }
    void near(const char* what, const R3::Vector& a, const LD* e, LD scale) { for (int i = 0; i < 3; ++i) near(what, a[i], e[i], scale); }

    void check(int k)
    {
        const Lattice& L = lat[k];
        const ModelLat& m = mod[k];
        const LD s = 1 + m.p[0] + m.p[1] + m.p[2];
        near("edge", L.a(), m.p[0], s); near("edge", L.b(), m.p[1], s); near("edge", L.c(), m.p[2], s);
        // angles lose digits near 0 and 180 only
        near("angle", L.alpha(), m.p[3], 1e3); near("angle", L.beta(), m.p[4], 1e3); near("angle", L.gamma(), m.p[5], 1e3);
        near("cosine", L.cosalpha(), cos(rad(m.p[3])), 10); near("cosine", L.cosbeta(), cos(rad(m.p[4])), 10);
        near("cosine", L.cosgamma(), cos(rad(m.p[5])), 10);
        near("sine", L.sinalpha(), sin(rad(m.p[3])), 10); near("sine", L.sinbeta(), sin(rad(m.p[4])), 10);
        near("sine", L.singamma(), sin(rad(m.p[5])), 10);
        near("base", L.base(), m.B, 100 * s);
        const LD* rows[3] = {m.B.m[0], m.B.m[1], m.B.m[2]};
        near("base-vector", L.va(), rows[0], 100 * s); near("base-vector", L.vb(), rows[1], 100 * s); near("base-vector", L.vc(), rows[2], 100 * s);
        near("standard-base", L.stdbase(), stdbase(m.p), 100 * s);
        near("rotation", L.baserot(), m.R, 1000);
        X3 G = mul(m.B, tr(m.B)), I = inv(m.B), GI = mul(tr(I), I);
        near("metrics", L.metrics(), G, 10 * s * s);
        near("volume", L.volume(), det(m.B), 10 * s * s * s);
        near("volume", L.volumeNormal(), det(m.B) / m.p[0] / m.p[1] / m.p[2], 100);
        // columns of the inverse base are reciprocal vectors
        X3 It = tr(I);
        LD r[3], big = 0;
        for (int i = 0; i < 3; ++i) { r[i] = sqrt(It.m[i][0] * It.m[i][0] + It.m[i][1] * It.m[i][1] + It.m[i][2] * It.m[i][2]); big += r[i]; }
        near("inverse", L.recbase(), I, 100 * big);
        near("reciprocal", L.ar(), r[0], 100 * big); near("reciprocal", L.br(), r[1], 100 * big); near("reciprocal", L.cr(), r[2], 100 * big);
        near("reciprocal-vector", L.var(), It.m[0], 100 * big); near("reciprocal-vector", L.vbr(), It.m[1], 100 * big);
        near("reciprocal-vector", L.vcr(), It.m[2], 100 * big);
        auto rcos = [&](int i, int j) { return (It.m[i][0] * It.m[j][0] + It.m[i][1] * It.m[j][1] + It.m[i][2] * It.m[j][2]) / r[i] / r[j]; };
        const LD ca = rcos(1, 2), cb = rcos(0, 2), cg = rcos(0, 1);
        near("reciprocal-angle", L.cosalphar(), ca, 100); near("reciprocal-angle", L.cosbetar(), cb, 100); near("reciprocal-angle", L.cosgammar(), cg, 100);
        near("reciprocal-angle", L.sinalphar(), sqrt(1 - ca * ca), 1000); near("reciprocal-angle", L.sinbetar(), sqrt(1 - cb * cb), 1000);
        near("reciprocal-angle", L.singammar(), sqrt(1 - cg * cg), 1000);
        near("reciprocal-angle", L.alphar(), acos(ca) * 180 / PI, 1e5); near("reciprocal-angle", L.betar(), acos(cb) * 180 / PI, 1e5);
        near("reciprocal-angle", L.gammar(), acos(cg) * 180 / PI, 1e5);
        LD dm = 0;
        for (int q = 0; q < 4; ++q)
        {
            LD t[3] = {q == 1 ? -1.L : 1.L, q == 2 ? -1.L : 1.L, q == 3 ? -1.L : 1.L}, n = 0;
            for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) n += t[i] * t[j] * G.m[i][j];
            dm = max(dm, sqrt(max(LD(0), n)));
        }
        near("diagonal", L.ucMaxDiagonalLength(), dm, 100 * s);
        near("diagonal", L.norm(L.ucMaxDiagonal()), dm, 100 * s);
        for (int j = 0; j < NS; ++j)
        {
            LD d = 0;
            bool same = true;
            for (int a = 0; a < 9; ++a)
            {
                d = max(d, fabs(mod[j].B.m[a / 3][a % 3] - m.B.m[a / 3][a % 3]));
                same &= lat[j].base()(a / 3, a % 3) == L.base()(a / 3, a % 3);
            }
            bool eq = lat[j] == L;
            if (eq != same || (eq && d > 1e-5) || (lat[j] != L) == eq) ctx.fail("equality", "%s: slots %d and %d", where.c_str(), k, j);
        }
    }

    void conv(const Op& op)
    {
        const int k = op.I(0), k2 = op.I(1);
        const Lattice& L = lat[k];
        const Lattice& L2 = lat[k2];
        const ModelLat& m = mod[k];
        const ModelLat& m2 = mod[k2];
        const LD s = 100 * (1 + m.p[0] + m.p[1] + m.p[2]) * (1 + m2.p[0] + m2.p[1] + m2.p[2]);
        X3 I = inv(m.B), G = mul(m.B, tr(m.B));
        LD big = 1;
        for (auto& a : I.m) for (LD b : a) big = max(big, fabs(b));
        R3::Vector u(op.D(0), op.D(1), op.D(2)), v(op.D(3), op.D(4), op.D(5));
        auto apply = [](const LD* x, const X3& a, LD* y) { for (int j = 0; j < 3; ++j) y[j] = x[0] * a.m[0][j] + x[1] * a.m[1][j] + x[2] * a.m[2][j]; };
        LD x[3] = {u[0], u[1], u[2]}, z[3] = {v[0], v[1], v[2]}, y[3], w[3];
        apply(x, m.B, y);
        near("cartesian", L.cartesian(u), y, s * 10);
        vector<double> uv = {u[0], u[1], u[2]};
        near("cartesian", L.cartesian(uv), y, s * 10);
        apply(x, I, w);
        near("fractional", L.fractional(u), w, big * 1e3);
        near("fractional", L.fractional(uv), w, big * 1e3);
        // results passed on to another conversion, also of another lattice
        X3 I2 = inv(m2.B);
        LD big2 = 1;
        for (auto& a : I2.m) for (LD b : a) big2 = max(big2, fabs(b));
        apply(y, I2, w);
        near("nested", L2.fractional(L.cartesian(u)), w, big2 * s * 10);
        LD y2[3];
        apply(y, m2.B, y2);
        near("nested", L2.cartesian(L.cartesian(u)), y2, s * s);
        apply(y, m.B, y2);
        near("nested", L.cartesian(L.cartesian(u)), y2, s * s);
        R3::Vector p = R3::mxvecproduct(R3::mxvecproduct(u, L.base()), L.base());
        near("nested", p, y2, s * s);
        p = R3::mxvecproduct(L.metrics(), R3::mxvecproduct(L.metrics(), u));
        LD g1[3], g2[3];
        apply(x, G, g1);
        apply(g1, G, g2);
        near("nested", p, g2, s * s * s);
        // back to the unit cell
        for (int t = 0; t < 2; ++t)
        {
            R3::Vector f = t ? L.fractional(L.ucvCartesian(L.cartesian(u))) : L.ucvFractional(u);
            for (int i = 0; i < 3; ++i)
            {
                const double e = t ? 1e-7 : 0;
                if (!(f[i] >= -e && f[i] < 1 + e)) ctx.fail("unit-cell", "%s: %.17g", where.c_str(), f[i]);
                double q = f[i] - u[i];
                if (!(fabs(q - round(q)) < 1e-6)) ctx.fail("unit-cell", "%s: %.17g from %.17g", where.c_str(), f[i], u[i]);
            }
        }
        // products
        auto prod = [&](const LD* a, const LD* b) { LD r = 0; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r += a[i] * G.m[i][j] * b[j]; return r; };
        LD nu = sqrt(prod(x, x)), nv = sqrt(prod(z, z)), d[3] = {x[0] - z[0], x[1] - z[1], x[2] - z[2]};
        near("dot", L.dot(u, v), prod(x, z), s * s);
        near("norm", L.norm(u), nu, s * 10);
        near("distance", L.distance(u, v), sqrt(prod(d, d)), s * 10);
        if (nu > 1e-3 && nv > 1e-3)
        {
            LD c = prod(x, z) / nu / nv;
            if (fabs(c) < 0.9999)
            {
                near("angle-between", L.anglerad(u, v), acos(c), 1e4);
                near("angle-between", L.angledeg(u, v), acos(c) * 180 / PI, 1e6);
            }
        }
        // tensors
        R3::Matrix M;
        for (int i = 0; i < 9; ++i) M(i / 3, i % 3) = op.D(6 + i);
        X3 N = m.B, Mx = toX(M), It = tr(I);
        for (int i = 0; i < 3; ++i)
        {
            LD r = sqrt(It.m[i][0] * It.m[i][0] + It.m[i][1] * It.m[i][1] + It.m[i][2] * It.m[i][2]);
            for (int j = 0; j < 3; ++j) N.m[i][j] *= r;
        }
        LD nb = 1;
        X3 NI = inv(N);
        for (int i = 0; i < 9; ++i) nb = max(nb, max(fabs(N.m[i / 3][i % 3]), fabs(NI.m[i / 3][i % 3])));
        near("cartesian-tensor", L.cartesianMatrix(M), mul(mul(tr(N), Mx), N), 1e3 * nb * nb);
        near("fractional-tensor", L.fractionalMatrix(M), mul(mul(tr(NI), Mx), NI), 1e3 * nb * nb);
        near("nested", L.fractionalMatrix(L.cartesianMatrix(M)), Mx, 1e3 * nb * nb * nb * nb);
        near("nested", L.cartesianMatrix(L.fractionalMatrix(M)), Mx, 1e3 * nb * nb * nb * nb);
        ctx.count("conversions");
    }

    LD length(const Enum& e, const array<int,3>& h) const
    {
        LD r = 0;
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r += LD(h[i]) * e.G.m[i][j] * h[j];
        return sqrt(max(LD(0), r));
    }

    // the present point is valid and was not given before
    void point(Enum& e)
    {
        array<int,3> h;
        const int* mno = e.s ? e.s->mno() : e.q ? e.q->hkl() : e.d->hkl();
        copy(mno, mno + 3, h.begin());
        const int m = e.s ? e.s->m() : e.q ? e.q->h() : e.d->h(), n = e.s ? e.s->n() : e.q ? e.q->k() : e.d->k(),
              o = e.s ? e.s->o() : e.q ? e.q->l() : e.d->l();
        if (m != h[0] || n != h[1] || o != h[2]) ctx.fail("indices", "%s: indices differ", where.c_str());
        const LD r = length(e, h), tol = 1e-7 * (1 + e.hi);
        if (r > e.hi + tol || r < e.lo - tol) ctx.fail("range", "%s: %d %d %d is out of range", where.c_str(), h[0], h[1], h[2]);
        if (e.s) near("length", e.s->r(), r, 1e3 * (1 + e.hi));
        else
        {
            const double q = e.q ? e.q->Q() : e.d->Q(), d = e.q ? e.q->d() : e.d->d();
            near("length", q, 2 * PI * r, 1e4 * (1 + e.hi));
            if (r > 1e-4) near("length", d, 1 / r, 1e3 * (1 + 1 / r) * (1 + 1 / r));
        }
        if (e.s) { near("limit", e.s->Rmin(), e.a0, 1); near("limit", e.s->Rmax(), e.a1, 1); }
        else if (e.q) { near("limit", e.q->Qmin(), e.a0, 1); near("limit", e.q->Qmax(), e.a1, 1); }
        else { near("limit", e.d->Dmax(), e.a0, 1); near("limit", e.d->Dmin(), e.a1, 1); }
        e.seen.push_back(h);
    }

    void advance(Enum& e, long n)
    {
        for (; n && !e.finished(); --n)
        {
            if (e.seen.size() > 30000) ctx.fail("endless", "%s: no end", where.c_str());
            point(e);
            e.next();
        }
    }

    void finish(Enum& e)
    {
        advance(e, -1);
        sort(e.seen.begin(), e.seen.end());
        if (adjacent_find(e.seen.begin(), e.seen.end()) != e.seen.end()) ctx.fail("repeated", "%s: a point was given twice", where.c_str());
        X3 GI = inv(e.G);
        long h[3];
        for (int k = 0; k < 3; ++k) h[k] = long(max(LD(0), e.hi) * sqrt(GI.m[k][k])) + 1;
        const LD tol = 1e-7 * (1 + e.hi);
        size_t n = 0;
        for (int a = int(-h[0]); a <= h[0]; ++a) for (int b = int(-h[1]); b <= h[1]; ++b) for (int c = int(-h[2]); c <= h[2]; ++c)
        {
            array<int,3> t = {{a, b, c}};
            const LD r = length(e, t);
            if (r > e.hi - tol || r < e.lo + tol) continue;
            ++n;
            if (!binary_search(e.seen.begin(), e.seen.end(), t)) ctx.fail("missing", "%s: %d %d %d is missing", where.c_str(), a, b, c);
        }
        ctx.count("points", long(n));
        ctx.count("enumerations");
    }

    void apply(const Op& op)
    {
        where = "operation " + op.str();
        const string& n = op.n;
        if (n == "par") { const int k = op.I(0); lat[k].setLatPar(op.D(0), op.D(1), op.D(2), op.D(3), op.D(4), op.D(5)); mod[k].par(op.d.data()); }
        else if (n == "make")
        {
            const int k = op.I(0);
            if (op.I(1)) { lat[k] = Lattice(op.D(0), op.D(1), op.D(2), op.D(3), op.D(4), op.D(5)); mod[k] = ModelLat::unit(); mod[k].par(op.d.data()); }
            else { lat[k] = Lattice(); mod[k] = ModelLat::unit(); }
        }
        else if (n == "base")
        {
            const int k = op.I(0);
            const double* d = op.d.data();
            X3 B;
            for (int i = 0; i < 9; ++i) B.m[i / 3][i % 3] = d[i];
            const LD dt = det(B);
            string exc;
            try
            {
                switch (op.I(1))
                {
                    case 0: lat[k].setLatBase(R3::Vector(d[0], d[1], d[2]), R3::Vector(d[3], d[4], d[5]), R3::Vector(d[6], d[7], d[8])); break;
                    case 1: lat[k].setLatBase(d, d + 3, d + 6); break;
                    default: lat[k] = Lattice(d, d + 3, d + 6); break;
                }
            }
            catch (const invalid_argument&) { exc = "invalid_argument"; }
            if (dt > 1e-7 && !exc.empty()) ctx.fail("refused", "%s: valid base was refused", where.c_str());
            if (dt < 1e-9 && exc.empty()) ctx.fail("not-refused", "%s: invalid base was accepted", where.c_str());
            if (exc.empty()) mod[k].base(d);
            else { ctx.count("fault.refused"); ctx.count("nontrivial"); }
        }
        else if (n == "copy")
        {
            if (op.I(2)) { boost::scoped_ptr<Lattice> p(new Lattice(lat[op.I(1)])); lat[op.I(0)] = *p; }
            else lat[op.I(0)] = lat[op.I(1)];
            mod[op.I(0)] = mod[op.I(1)];
        }
        else if (n == "save")
        {
            ostringstream os;
            bool ok = true;
            {
                diffpy::serialization::oarchive oa(os, ios::binary);
                oa << static_cast<const Lattice&>(lat[op.I(0)]);
            }
            if (ok) { arch[op.I(1)] = os.str(); amod[op.I(1)] = mod[op.I(0)]; aset[op.I(1)] = true; }
        }
        else if (n == "load")
        {
            const int a = op.I(1);
            if (!aset[a]) return;
            const double f = op.D(0);
            string t = arch[a];
            if (f < 1) t.resize(size_t(f * t.size()));
            Lattice L;
            bool threw = false;
            try
            {
                istringstream is(t);
                diffpy::serialization::iarchive ia(is, ios::binary);
                ia >> L;
            }
            catch (const exception&) { threw = true; }
            if (threw != (f < 1)) ctx.fail("restore", "%s: %s", where.c_str(), threw ? "failed" : "incomplete snapshot was accepted");
            if (threw) ctx.count("fault.truncated");
            else { lat[op.I(0)] = L; mod[op.I(0)] = amod[a]; ctx.count("restores"); ctx.count("nontrivial"); }
        }
        else if (n == "conv") { conv(op); return; }
        else if (n == "gen")
        {
            Enum e;
            const ModelLat& m = mod[op.I(1)];
            const Lattice& L = lat[op.I(1)];
            e.kind = op.I(2);
            e.a0 = op.D(0);
            e.a1 = op.D(1);
            X3 G = mul(m.B, tr(m.B));
            e.G = e.kind ? inv(G) : G;
            // limits are given in units of the cube root of cell volume
            const double u = pow(double(sqrt(det(e.G))), 1. / 3);
            e.a0 *= u;
            e.a1 *= u;
            e.lo = e.a0;
            e.hi = e.a1;
            const double v[6] = {L.a(), L.b(), L.c(), L.alpha(), L.beta(), L.gamma()};
            pointsinsphere::LatticeParameters P(v[0], v[1], v[2], v[3], v[4], v[5]);
            const int c = op.I(3);
            if (e.kind == 1) { e.a0 *= 2 * M_PI; e.a1 *= 2 * M_PI; }
            if (e.kind == 2)
            {
                if (!(e.lo > 0 && e.hi > 0)) return;
                e.a0 = double(1 / e.lo); e.a1 = double(1 / e.hi);
            }
            switch (e.kind)
            {
                case 0: case 3:
                    if (e.kind == 3) e.s.reset(new PointsInSphere(e.a0, e.a1, P.reciprocal()));
                    else if (c == 0) e.s.reset(new PointsInSphere(e.a0, e.a1, L));
                    else if (c == 1) e.s.reset(new PointsInSphere(e.a0, e.a1, P));
                    else e.s.reset(new PointsInSphere(e.a0, e.a1, v[0], v[1], v[2], v[3], v[4], v[5]));
                    break;
                case 1:
                    if (c == 0) e.q.reset(new ReflectionsInQminQmax(e.a0, e.a1, L));
                    else if (c == 1) e.q.reset(new ReflectionsInQminQmax(e.a0, e.a1, P));
                    else e.q.reset(new ReflectionsInQminQmax(e.a0, e.a1, v[0], v[1], v[2], v[3], v[4], v[5]));
                    break;
                default:
                    if (c == 0) e.d.reset(new ReflectionsInDmaxDmin(e.a0, e.a1, L));
                    else if (c == 1) e.d.reset(new ReflectionsInDmaxDmin(e.a0, e.a1, P));
                    else e.d.reset(new ReflectionsInDmaxDmin(e.a0, e.a1, v[0], v[1], v[2], v[3], v[4], v[5]));
                    break;
            }
            en[op.I(0)] = e;
            ctx.feat(strprintf("gen%d/%d", e.kind, c));
            return;
        }
        else if (n == "gcopy")
        {
            const Enum& f = en[op.I(1)];
            if (f.kind < 0) return;
            Enum e = f;
            if (e.s) e.s.reset(new PointsInSphere(*f.s));
            if (e.q) e.q.reset(new ReflectionsInQminQmax(*f.q));
            if (e.d) e.d.reset(new ReflectionsInDmaxDmin(*f.d));
            en[op.I(0)] = e;
            ctx.count("enumerator-copies");
            return;
        }
        else if (n == "adv" || n == "rew" || n == "fin")
        {
            Enum& e = en[op.I(0)];
            if (e.kind < 0) return;
            if (n == "adv") advance(e, op.I(1));
            else if (n == "rew") { e.rewind(); e.seen.clear(); }
            else { finish(e); ctx.count("nontrivial"); }
            return;
        }
        for (int k = 0; k < NS; ++k) check(k);
        ctx.count("lattice-checks", NS);
    }
};

static Scenario gen(uint64_t seed, bool thorough)
{
    Rng r(seed ^ 0xc20);
    Scenario sc;
    sc.prop = "C20";
    sc.seed = seed;
    auto add = [&](const string& n, vector<long> i, vector<double> d = {}) { sc.ops.push_back(Op(n, i, d)); };
    const double lo = r.pick(vector<double>{0.3, 2, 5}), hi = lo * r.pick(vector<double>{1.5, 4});
    auto cell = [&]() {
        vector<double> v(6);
        for (;;)
        {
            for (int k = 0; k < 3; ++k) v[k] = r.uni(lo, hi);
            for (int k = 3; k < 6; ++k) v[k] = r.chance(0.3) ? 90 : r.chance(0.3) ? r.pick(vector<double>{60, 120, 45, 135}) : r.uni(45, 135);
            switch (r.below(6))
            {
                case 0: v[1] = v[0]; break;
                case 1: v[1] = v[2] = v[0]; break;
                case 2: v[4] = v[5] = v[3]; break;
                case 3: v[3] = v[4] = v[5] = 90; break;
                default: break;
            }
            double a = cos(v[3] * M_PI / 180), b = cos(v[4] * M_PI / 180), c = cos(v[5] * M_PI / 180);
            double q = 1 + 2 * a * b * c - a * a - b * b - c * c;
            if (q > 0.05) return v;
        }
    };
    auto base = [&]() {
        vector<double> v(9);
        for (;;)
        {
            switch (r.below(4))
            {
                case 0: for (auto& x : v) x = r.uni(-hi, hi); break;
                case 1: { static const double f[9] = {0, .5, .5, .5, 0, .5, .5, .5, 0}; double a = r.uni(lo, hi) * 2; for (int i = 0; i < 9; ++i) v[i] = f[i] * a; break; }
                case 2: { static const double f[9] = {-.5, .5, .5, .5, -.5, .5, .5, .5, -.5}; double a = r.uni(lo, hi) * 2; for (int i = 0; i < 9; ++i) v[i] = f[i] * a; break; }
                default: { double a = r.uni(lo, hi); for (int i = 0; i < 9; ++i) v[i] = (i % 3 == (i / 3 + 1) % 3) * a; break; }
            }
            X3 B;
            for (int i = 0; i < 9; ++i) B.m[i / 3][i % 3] = v[i];
            LD n = 1;
            for (int i = 0; i < 3; ++i) n *= sqrt(B.m[i][0] * B.m[i][0] + B.m[i][1] * B.m[i][1] + B.m[i][2] * B.m[i][2]);
            LD q = det(B) / n;
            if (q < -0.25) for (int j = 0; j < 3; ++j) swap(v[j], v[3 + j]);
            if (fabs(q) > 0.25) break;
        }
        if (r.chance(0.25))
        {
            // left-handed or degenerate
            if (r.chance(0.5)) for (int j = 0; j < 3; ++j) swap(v[j], v[3 + j]);
            else if (r.chance(0.5)) for (int j = 0; j < 3; ++j) v[6 + j] = v[j] + v[3 + j];
            else { int k = r.below(3); for (int j = 0; j < 3; ++j) v[3 * k + j] = 0; }
        }
        return v;
    };
    const int n = thorough ? r.range(20, 120) : r.range(8, 50);
    for (int k = 0; k < n; ++k)
    {
        const long s = r.below(NS), g = r.below(NG);
        switch (r.weighted({3, 2, 0.7, 1.5, 0.7, 1, 4, 1.5, 0.5, 3, 0.7, 1.5}))
        {
            case 0: add("par", {s}, cell()); break;
            case 1: add("base", {s, r.below(3)}, base()); break;
            case 2: add("make", {s, r.below(2)}, cell()); break;
            case 3: add("copy", {s, r.below(NS), r.below(2)}); break;
            case 4: add("save", {s, r.below(NA)}); break;
            case 5: add("load", {s, r.below(NA)}, {r.chance(0.2) ? r.uni(0, 0.98) : 1}); break;
            case 6:
            {
                vector<double> d(18);
                for (int j = 0; j < 6; ++j) d[j] = r.chance(0.3) ? r.range(-3, 3) + (r.chance(0.3) ? r.pick(vector<double>{1e-13, -1e-13, 1e-9, -1e-17}) : 0)
                    : r.chance(0.1) ? -1e-17 : r.uni(-4, 4);
                for (int j = 6; j < 15; ++j) d[j] = r.uni(-1, 1);
                if (r.chance(0.7)) { d[9] = d[7]; d[12] = d[8]; d[13] = d[11]; }
                add("conv", {s, r.below(NS)}, d);
                break;
            }
            case 7:
            {
                double a = r.uni(0.3, 4), b = r.chance(0.3) ? 0 : r.chance(0.2) ? -r.uni(0.1, 1) : r.uni(0, a * 1.05);
                add("gen", {g, s, r.below(4), r.below(3)}, {b, r.chance(0.03) ? -a : a});
                break;
            }
            case 8: add("gcopy", {g, r.below(NG)}); break;
            case 9: add("adv", {g, r.chance(0.5) ? r.range(1, 5) : r.range(1, 60)}); break;
            case 10: add("rew", {g}); break;
            default: add("fin", {g}); break;
        }
    }
    for (int g = 0; g < NG; ++g) { add("fin", {g}); add("rew", {g}); add("fin", {g}); }
    return sc;
}

static void run(const Scenario& sc, Ctx& ctx)
{
    T20 t(ctx);
    for (auto& op : sc.ops)
    {
        t.apply(op);
        ctx.log("%s", op.str().c_str());
    }
}

static Register reg(Property{"C20", gen, run, nullptr});

}   // namespace sim
