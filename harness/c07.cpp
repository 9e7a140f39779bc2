// C07: enumeration of lattice points and reflections
#include "common.hpp"
#include <diffpy/srreal/Lattice.hpp>
#include <diffpy/srreal/PointsInSphere.hpp>

using namespace std;
using namespace ref;
using namespace diffpy::srreal;
using pointsinsphere::LatticeParameters;

typedef array<int,3> I3;
typedef map<I3, double> PointMap;

static GenOpts latOpts()
{
    GenOpts o;
    o.cellmin = 0.7;
    o.cellmax = 9;
    return o;
}

// all integer triples with |h B| < rmax
static PointMap brute(const M3& B, double rmax)
{
    PointMap rv;
    M3 Bi = inv(B);
    int N[3];
    for (int k = 0; k < 3; ++k)
        N[k] = int(floor(max(rmax, 0.0) * norm(v3(Bi[0][k], Bi[1][k], Bi[2][k])))) + 1;
    for (int a = -N[0]; a <= N[0]; ++a)
    for (int b = -N[1]; b <= N[1]; ++b)
    for (int c = -N[2]; c <= N[2]; ++c)
    {
        double r = norm(mul(v3(a, b, c), B));
        if (r < rmax)  rv[I3{{a, b, c}}] = r;
    }
    return rv;
}

// move the limit off the point distances
static double clear(const PointMap& pts, double x, double margin)
{
    vector<double> ds;
    for (auto& p : pts)  ds.push_back(p.second);
    sort(ds.begin(), ds.end());
    for (int k = 0; k < 2000; ++k)
    {
        auto i = lower_bound(ds.begin(), ds.end(), x - margin);
        if (i == ds.end() || *i > x + margin)  return x;
        x += 1.37 * margin;
    }
    throw vt::Discard();
}

static PointMap within(const PointMap& pts, double lo, double hi)
{
    PointMap rv;
    for (auto& p : pts)
        if (p.second >= lo && p.second <= hi)  rv.insert(p);
    return rv;
}

template <class IT, class GET>
PointMap collect(IT& it, GET get, bool rewind, size_t limit)
{
    PointMap rv;
    if (rewind)  it.rewind();
    for (; !it.finished(); it.next())
    {
        pair<I3, double> p = get(it);
        VT_CHECK(rv.count(p.first) == 0, "duplicate point " << p.first[0] << ' ' << p.first[1] << ' ' << p.first[2]);
        rv.insert(p);
        VT_CHECK(rv.size() <= limit, "too many points");
    }
    return rv;
}

static void compare(const char* what, const PointMap& got, const PointMap& exp)
{
    for (auto& p : exp)
        VT_CHECK(got.count(p.first), what << ": missing " << p.first[0] << ' ' <<
                p.first[1] << ' ' << p.first[2] << " at " << p.second);
    for (auto& p : got)
    {
        auto e = exp.find(p.first);
        VT_CHECK(e != exp.end(), what << ": extra " << p.first[0] << ' ' <<
                p.first[1] << ' ' << p.first[2] << " at " << p.second);
        vt::checkClose(string(what) + " length", p.second, e->second, 1e-6, 1e-9);
    }
}

static pair<I3, double> getPoint(PointsInSphere& s)
{
    I3 i = {{s.m(), s.n(), s.o()}};
    VT_CHECK(s.mno()[0] == i[0] && s.mno()[1] == i[1] && s.mno()[2] == i[2], "mno");
    return make_pair(i, s.r());
}

VT_PROP(sphere, "at least 10 points and a skewed cell or a positive lower limit", 30000, 1000000)
{
    double p[6];
    genLatPar(c, p, latOpts());
    M3 B = baseFromPar(p);
    double V = det(B);
    // limit the number of points
    double rcap = cbrt(3.0 / 4 / M_PI * (c.thorough ? 20000 : 3000) * V);
    double rmax = c.chance(1, 12) ? c.oneof({0.0, -1.0, -5.0}) : c.real(0, min(rcap, 40.0));
    double rmin = 0;
    switch (c.below(4))
    {
        case 0: rmin = 0; break;
        case 1: rmin = c.real(0, max(rmax, 0.0) * 1.1); break;
        case 2: rmin = max(0.0, rmax - c.oneof({0.1, 0.5, 2.0})); break;
        case 3: rmin = -c.real(0, 3); break;
    }
    PointMap all = brute(B, max(rmax, rmin) + 1);
    if (rmax > 0)  rmax = clear(all, rmax, 1e-5);
    if (rmin > 0)  rmin = clear(all, rmin, 1e-5);
    PointMap exp;
    if (rmax > 0)  exp = within(all, rmin, rmax);
    c.note() << "lattice " << vt::strv(vector<double>(p, p + 6)) << " r " << rmin << ".." << rmax;
    bool skew = p[3] != 90 || p[4] != 90 || p[5] != 90;
    if (exp.size() >= 10 && (skew || rmin > 0))  c.nontrivial();
    if (rmin > 0)  c.label("shell");
    if (exp.empty())  c.label("empty");
    size_t limit = all.size() + 10;
    PointsInSphere s(rmin, rmax, p[0], p[1], p[2], p[3], p[4], p[5]);
    VT_CHECK(s.Rmin() == rmin && s.Rmax() == rmax, "limits");
    compare("after construction", collect(s, getPoint, false, limit), exp);
    compare("after rewind", collect(s, getPoint, true, limit), exp);
    // rewind in the middle of the enumeration
    s.rewind();
    int k = c.range(0, 20);
    for (; k && !s.finished(); --k)  s.next();
    compare("after interrupted enumeration", collect(s, getPoint, true, limit), exp);
    LatticeParameters lp(p[0], p[1], p[2], p[3], p[4], p[5]);
    PointsInSphere s1(rmin, rmax, lp);
    Lattice L(p[0], p[1], p[2], p[3], p[4], p[5]);
    PointsInSphere s2(rmin, rmax, L);
    // two iterators advanced alternately do not interact
    PointMap m1, m2;
    while (!s1.finished() || !s2.finished())
    {
        for (int q = 0; q < 3 && !s1.finished(); ++q, s1.next())  m1.insert(getPoint(s1));
        if (!s2.finished())  { m2.insert(getPoint(s2)); s2.next(); }
        VT_CHECK(m1.size() <= limit && m2.size() <= limit, "too many points");
    }
    compare("from LatticeParameters", m1, exp);
    compare("from Lattice", m2, exp);
    // a copy continues independently
    s.rewind();
    for (k = c.range(0, 5); k && !s.finished(); --k)  s.next();
    PointsInSphere sc(s);
    if (!s.finished())
    {
        pair<I3, double> at = getPoint(s);
        VT_CHECK(getPoint(sc) == at, "position of a copy");
        sc.next();
        VT_CHECK(getPoint(s) == at, "advancing a copy changed the original");
    }
    compare("copy", collect(sc, getPoint, true, limit), exp);
}

template <class R>
pair<I3, double> getRef(R& s)
{
    I3 i = {{s.h(), s.k(), s.l()}};
    VT_CHECK(s.hkl()[0] == i[0] && s.hkl()[1] == i[1] && s.hkl()[2] == i[2], "hkl");
    if (s.Q() > 0)  vt::checkClose("d", s.d(), 2 * M_PI / s.Q(), 1e-10);
    return make_pair(i, s.Q());
}

VT_PROP(reflections, "at least 10 reflections of a non-cubic cell or with a positive lower limit", 25000, 750000)
{
    double p[6];
    genLatPar(c, p, latOpts());
    M3 Bi = inv(baseFromPar(p));
    M3 R = trans(Bi);
    for (auto& r : R)  r = (2 * M_PI) * r;
    double qcap = cbrt(3.0 / 4 / M_PI * (c.thorough ? 10000 : 2000) * det(R));
    bool bydmin = c.flag();
    double qmax = c.real(0.1, min(qcap, 30.0));
    double qmin = c.flag() ? 0.0 : c.real(0, qmax * 1.05);
    if (bydmin && qmin < 0.05)  qmin = 0.05;
    PointMap all = brute(R, max(qmax, qmin) + 1);
    qmax = clear(all, qmax, 1e-5);
    if (qmin > 0)  qmin = clear(all, qmin, 1e-5);
    PointMap exp = within(all, qmin, qmax);
    c.note() << "lattice " << vt::strv(vector<double>(p, p + 6)) << " q " << qmin << ".." << qmax;
    bool cubic = p[0] == p[1] && p[0] == p[2] && p[3] == 90 && p[4] == 90 && p[5] == 90;
    if (exp.size() >= 10 && (qmin > 0 || !cubic))  c.nontrivial();
    size_t limit = all.size() + 10;
    LatticeParameters lp(p[0], p[1], p[2], p[3], p[4], p[5]);
    Lattice L(p[0], p[1], p[2], p[3], p[4], p[5]);
    if (!bydmin)
    {
        c.label("by-Q");
        ReflectionsInQminQmax s(qmin, qmax, p[0], p[1], p[2], p[3], p[4], p[5]);
        VT_CHECK(s.Qmin() == qmin && s.Qmax() == qmax, "limits");
        compare("Q range", collect(s, getRef<ReflectionsInQminQmax>, false, limit), exp);
        compare("Q range rewound", collect(s, getRef<ReflectionsInQminQmax>, true, limit), exp);
        ReflectionsInQminQmax s1(qmin, qmax, lp), s2(qmin, qmax, L);
        compare("Q range from LatticeParameters", collect(s1, getRef<ReflectionsInQminQmax>, false, limit), exp);
        compare("Q range from Lattice", collect(s2, getRef<ReflectionsInQminQmax>, false, limit), exp);
    }
    else
    {
        c.label("by-d");
        double dmax = 2 * M_PI / qmin, dmin = 2 * M_PI / qmax;
        ReflectionsInDmaxDmin s(dmax, dmin, p[0], p[1], p[2], p[3], p[4], p[5]);
        VT_CHECK(s.Dmin() == dmin && s.Dmax() == dmax, "limits");
        compare("d range", collect(s, getRef<ReflectionsInDmaxDmin>, false, limit), exp);
        compare("d range rewound", collect(s, getRef<ReflectionsInDmaxDmin>, true, limit), exp);
        ReflectionsInDmaxDmin s1(dmax, dmin, lp), s2(dmax, dmin, L);
        compare("d range from LatticeParameters", collect(s1, getRef<ReflectionsInDmaxDmin>, false, limit), exp);
        compare("d range from Lattice", collect(s2, getRef<ReflectionsInDmaxDmin>, false, limit), exp);
    }
    // lattice parameter helper
    Lattice RL(lp.ar, lp.br, lp.cr, lp.alphar, lp.betar, lp.gammar);
    vt::checkClose("reciprocal lattice volume", RL.volume() * L.volume(), 1, 1e-6);
    LatticeParameters rr = lp.reciprocal().reciprocal();
    vt::checkClose("double reciprocal", rr.a, lp.a, 1e-12);
    vt::checkClose("double reciprocal", rr.cg, lp.cg, 1e-12, 1e-12);
    LatticeParameters rec = lp.reciprocal();
    const double* q[6] = {&rec.a, &rec.b, &rec.c, &rec.alpha, &rec.beta, &rec.gamma};
    double e[6] = {L.ar(), L.br(), L.cr(), L.alphar(), L.betar(), L.gammar()};
    for (int i = 0; i < 6; ++i)  vt::checkClose("reciprocal parameters", *q[i], e[i], 1e-7);
    LatticeParameters r1 = rec;
    r1.update();
    vt::checkClose("updated reciprocal", r1.ar, lp.a, 1e-6);
    vt::checkClose("updated reciprocal", r1.car, lp.ca, 0, 1e-6);
}
