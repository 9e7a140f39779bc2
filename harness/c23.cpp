// C23 External crystal objects convert to equivalent structures
#include "calc.hpp"
#include <diffpy/srreal/ObjCrystStructureAdapter.hpp>
#include <ObjCryst/ObjCryst/Atom.h>
#include <ObjCryst/ObjCryst/Crystal.h>
#include <ObjCryst/ObjCryst/Molecule.h>
#include <ObjCryst/ObjCryst/ScatteringPower.h>

using namespace std;
using namespace calc;
using namespace diffpy::srreal;
namespace oc = ObjCryst;

namespace {

void quiet(const string&)  { }
const bool isquiet = (oc::fpObjCrystInformUser = quiet, true);

// settings in addition to the standard ones of all 230 groups
const char* const othersettings[] = {
    "P 1 21/n 1", "P 1 21/a 1", "P 1 1 21/b", "I 1 2/a 1", "A 1 2/n 1",
    "P 1 1 2/m", "B 1 1 2", "C 1 2/c 1", "P b n m", "P c a b", "P c m n",
    "A b m 2", "B m a b", "C m c e", "P n n n :1", "P n n n :2",
    "P b a n :1", "C c c a :1", "F d d d :1", "F d d d :2", "P 4/n :1",
    "P 4/n :2", "P 42/n :1", "I 41/a :1", "I 41/a :2", "P 4/n b m :1",
    "P 42/n m c :1", "I 41/a m d :1", "I 41/a c d :1", "R 3 :R", "R -3 :R",
    "R 3 2 :R", "R 3 m :R", "R -3 m :R", "R -3 m :H", "R 3 c :R", "R -3 c :R",
    "P n -3 :1", "F d -3 :1", "P n -3 n :1", "P n -3 m :1", "F d -3 m :1",
    "F d -3 m :2", "F d -3 c :1", "I 2 2 2", "-P 2ybc", "-P 4", "-F 4 2 3",
    "-P 2ac 2n", "P 1",
};
const int nother = sizeof(othersettings) / sizeof(*othersettings);

string groupName(int i)
{
    return (i < 230) ? vt::str(i + 1) : string(othersettings[i - 230]);
}
const int ngroups = 230 + nother;

// operations from equivalent positions of four points
vector<ref::Op> opsByPositions(const oc::SpaceGroup& sg)
{
    const double x0[3] = {0.1237, 0.2713, 0.3391}, h = 1.0 / 1024;
    vector<ref::Op> rv;
    CrystMatrix_REAL p[4];
    for (int k = 0; k < 4; ++k)
    {
        double x[3] = {x0[0], x0[1], x0[2]};
        if (k < 3)  x[k] += h;
        p[k] = sg.GetAllSymmetrics(x[0], x[1], x[2], false, false, false);
    }
    for (int i = 0; i < p[3].rows(); ++i)
    {
        ref::Op op;
        for (int a = 0; a < 3; ++a)
            for (int k = 0; k < 3; ++k)
            {
                double d = p[k](i, a) - p[3](i, a);
                d -= floor(d + 0.5);
                op.R[a][k] = floor(d / h + 0.5);
                if (fabs(op.R[a][k] - d / h) > 1e-6)  vt::fail("harness: operation matrix");
            }
        ref::V3 r = ref::mul(op.R, ref::v3(x0[0], x0[1], x0[2]));
        for (int a = 0; a < 3; ++a)
        {
            op.t[a] = p[3](i, a) - r[a];
            op.t[a] -= floor(op.t[a] + 1e-9);
        }
        rv.push_back(op);
    }
    return rv;
}

bool sameOp(const ref::Op& a, const ref::Op& b)
{
    for (int i = 0; i < 3; ++i)
    {
        double d = a.t[i] - b.t[i];
        if (fabs(d - floor(d + 0.5)) > 1e-7)  return false;
        for (int j = 0; j < 3; ++j)  if (a.R[i][j] != b.R[i][j])  return false;
    }
    return true;
}

void checkOps(const CrystalStructureAdapter& x, const vector<ref::Op>& exp)
{
    if (x.countSymOps() != int(exp.size()))
        vt::fail("adapter has " + vt::str(x.countSymOps()) + " operations, expected " + vt::str(exp.size()));
    vector<bool> used(exp.size(), false);
    for (int i = 0; i < x.countSymOps(); ++i)
    {
        ref::Op op;
        op.R = ref::fromR3(x.getSymOp(i).R);
        op.t = ref::fromR3(x.getSymOp(i).t);
        size_t j = 0;
        for (; j < exp.size(); ++j)  if (!used[j] && sameOp(op, exp[j]))  break;
        if (j == exp.size())
            vt::fail("unexpected or repeated operation " + vt::str(i) + " " + ref::str(op.R) + " " + ref::str(op.t));
        used[j] = true;
    }
}

// the smallest distance between different images of a site
double imageGap(const ref::Model& m, int idx)
{
    ref::M3 B = m.base(), Bi = ref::inv(B);
    ref::V3 f0 = ref::mul(m.sites[idx].r, Bi);
    vector<ref::V3> f;
    for (const ref::Op& op : m.ops)  f.push_back(ref::mul(op.R, f0) + op.t);
    double rv = 1e9;
    for (size_t i = 0; i < f.size(); ++i)
        for (size_t j = 0; j < i; ++j)
        {
            ref::V3 d = f[i] - f[j];
            for (int k = 0; k < 3; ++k)  d[k] -= floor(d[k] + 0.5);
            double dd = ref::norm(ref::mul(d, B));
            if (dd > 1e-7)  rv = min(rv, dd);
        }
    return rv;
}

double cellDistance(const ref::V3& a, const ref::V3& b, const ref::M3& B, const ref::M3& Bi)
{
    ref::V3 d = ref::mul(a - b, Bi);
    for (int k = 0; k < 3; ++k)  d[k] -= floor(d[k] + 0.5);
    return ref::norm(ref::mul(d, B));
}

// own description of the external crystal
struct Power
{
    string symbol;
    bool aniso = false;
    double biso = 0;
    double bij[6] = {0, 0, 0, 0, 0, 0};     // 11 22 33 12 13 23
    oc::ScatteringPowerAtom* obj = 0;
};

struct Scat
{
    string name;
    bool dummy = false;
    int power = 0;
    ref::V3 frac;
    double occ = 1;
};

struct Desc
{
    string sgname;
    vector<Power> powers;
    vector<Scat> scat;
};

const int bi[6] = {1, 2, 3, 1, 1, 2}, bj[6] = {1, 2, 3, 2, 3, 3};

void setB(Case& c, Power& p)
{
    p.aniso = c.chance(1, 2);
    if (!p.aniso)
    {
        p.biso = c.oneof({0.0, 0.2, 0.5, 1.3, 0.79});
        if (p.obj)  p.obj->SetBiso(p.biso);
        return;
    }
    // diagonal dominant tensor
    for (int k = 0; k < 3; ++k)  p.bij[k] = c.real(0.3, 1.5);
    for (int k = 3; k < 6; ++k)  p.bij[k] = c.chance(1, 4) ? 0.0 : c.real(-0.12, 0.12);
    if (p.obj)
    {
        vector<int> order = c.permutation(6);
        for (int k : order)
        {
            if (c.flag())  p.obj->SetBij(bi[k], bj[k], p.bij[k]);
            else  p.obj->SetBij(bj[k], bi[k], p.bij[k]);
        }
    }
}

ref::M3 powerU(const Power& p)
{
    ref::M3 U = ref::diag(0);
    const double btou = 1 / (8 * M_PI * M_PI);
    if (!p.aniso)  return ref::diag(p.biso * btou);
    for (int k = 0; k < 6; ++k)
        U[bi[k] - 1][bj[k] - 1] = U[bj[k] - 1][bi[k] - 1] = p.bij[k] * btou;
    return U;
}

// tensor relative to unit reciprocal vectors to Cartesian
ref::M3 toCartesianU(const ref::M3& U, const ref::M3& B)
{
    ref::M3 Bi = ref::inv(B), N = B;
    for (int i = 0; i < 3; ++i)
    {
        ref::V3 rec = ref::v3(Bi[0][i], Bi[1][i], Bi[2][i]);
        double a = ref::norm(rec);
        for (int j = 0; j < 3; ++j)  N[i][j] *= a;
    }
    return ref::mul(ref::trans(N), ref::mul(U, N));
}

// sites of the model in the order of scatterers
ref::Model modelOf(const Desc& d, const oc::Crystal& cr)
{
    ref::Model m;
    m.kind = ref::CRYSTAL;
    m.sg = d.sgname;
    for (int k = 0; k < 6; ++k)
        m.par[k] = cr.GetLatticePar(k) * (k < 3 ? 1 : 180 / M_PI);
    m.ops = opsByPositions(cr.GetSpaceGroup());
    ref::M3 B = m.base();
    for (const Scat& s : d.scat)
    {
        if (s.dummy)  continue;
        const Power& p = d.powers[s.power];
        ref::Site t;
        t.type = p.symbol;
        t.occ = s.occ;
        t.aniso = p.aniso;
        t.U = p.aniso ? toCartesianU(powerU(p), B) : powerU(p);
        t.r = ref::mul(s.frac, B);
        m.sites.push_back(t);
    }
    return m;
}

void checkSites(const ref::Model& m, StructureAdapterConstPtr s)
{
    VT_CHECK(s->countSites() == int(m.sites.size()), "number of sites");
    for (int i = 0; i < s->countSites(); ++i)
    {
        string what = "site " + vt::str(i);
        const ref::Site& t = m.sites[i];
        VT_CHECK(s->siteAtomType(i) == t.type, what + " type " + s->siteAtomType(i) + " expected " + t.type);
        VT_CHECK(s->siteOccupancy(i) == t.occ, what + " occupancy");
        VT_CHECK(s->siteAnisotropy(i) == t.aniso, what + " anisotropy");
        for (int k = 0; k < 3; ++k)
        {
            vt::checkClose(what + " position", s->siteCartesianPosition(i)[k], t.r[k], 1e-9, 1e-9);
            for (int l = 0; l < 3; ++l)
                vt::checkClose(what + " U", s->siteCartesianUij(i)(k, l), t.U[k][l], 1e-9, 1e-11);
        }
    }
}

ref::V3 genFrac(Case& c)
{
    ref::V3 f;
    int kind = c.below(4);
    static const double spec[] = {0, 0.5, 0.25, 0.75, 0.125, 0.375, 0.625, 0.875,
        1.0 / 3, 2.0 / 3, 1.0 / 6, 5.0 / 6};
    double x = c.real(0, 1);
    for (int k = 0; k < 3; ++k)
    {
        if (kind == 0)  f[k] = c.real(-1, 2);
        else if (kind == 1)  f[k] = spec[c.below(12)];
        else if (kind == 2)  f[k] = c.oneof({x, -x, 2 * x, 0.0, 0.5, x + 0.5, 0.25, x + 0.25});
        else  f[k] = c.flag() ? spec[c.below(12)] : c.real(0, 1);
    }
    return f;
}

void setLattice(Case& c, oc::Crystal& cr)
{
    static const char* nm[] = {"a", "b", "c", "alpha", "beta", "gamma"};
    for (int k = 0; k < 6; ++k)
    {
        double v = (k < 3) ? c.real(3, 8) : c.real(75, 105) * M_PI / 180;
        cr.GetPar(nm[k]).SetValue(v);
    }
}

void addScatterer(Case& c, Desc& d, oc::Crystal& cr, int& counter, bool nodummy=false)
{
    Scat s;
    s.name = "s" + vt::str(++counter);
    s.dummy = c.chance(1, 8) && !nodummy;
    s.power = c.below(d.powers.size());
    s.frac = genFrac(c);
    s.occ = c.oneof({1.0, 1.0, 0.5, 0.25, 0.8});
    const oc::ScatteringPowerAtom* pow = s.dummy ? 0 : d.powers[s.power].obj;
    cr.AddScatterer(new oc::Atom(s.frac[0], s.frac[1], s.frac[2], s.name, pow, s.occ));
    d.scat.push_back(s);
    c.note() << "scatterer " << s.name << (s.dummy ? " dummy " : " ") << ref::str(s.frac) << " power " << s.power << " occ " << s.occ << "\n";
    if (s.dummy)  c.label("dummy atom");
}

const char* const symbols[] = {"C", "Ni", "O2-", "Ti4+", "Na1+", "Cl1-", "Sr2+", "H"};

void checkCrystal(Case& c, const ref::Model& m, const oc::Crystal& cr,
        StructureAdapterPtr s, bool heavy)
{
    CrystalStructureAdapterPtr x = boost::dynamic_pointer_cast<CrystalStructureAdapter>(s);
    VT_CHECK(x, "type of the adapter");
    // lattice
    const Lattice& L = x->getLattice();
    const double lp[6] = {L.a(), L.b(), L.c(), L.alpha(), L.beta(), L.gamma()};
    for (int k = 0; k < 6; ++k)  vt::checkClose("lattice parameter", lp[k], m.par[k], 1e-12, 0);
    c.note() << "lattice " << m.par[0] << " " << m.par[1] << " " << m.par[2] << " " << m.par[3] << " " << m.par[4] << " " << m.par[5] << "\n";
    for (const ref::Site& t : m.sites)  c.note() << "U " << (t.aniso ? "aniso " : "iso ") << ref::str(t.U) << "\n";
    checkOps(*x, m.ops);
    checkSites(m, s);
    // equivalent positions
    ref::M3 B = m.base(), Bi = ref::inv(B);
    int ncell = 0;
    for (size_t i = 0; i < m.sites.size(); ++i)
        if (imageGap(m, i) < 2e-3)  c.discard();
    double totocc = 0;
    for (size_t i = 0; i < m.sites.size(); ++i)
    {
        string what = "site " + vt::str(i);
        vector<ref::ExpSite> ex = ref::expandSite(m, i);
        const CrystalStructureAdapter::AtomVector& ea = x->getEquivalentAtoms(i);
        if (ea.size() != ex.size() || x->siteMultiplicity(i) != int(ex.size()))
            vt::fail(what + " has multiplicity " + vt::str(ea.size()) + ", expected " + vt::str(ex.size()));
        vector<bool> used(ex.size(), false);
        for (const Atom& a : ea)
        {
            size_t j = 0;
            for (; j < ex.size(); ++j)
                if (!used[j] && cellDistance(ref::fromR3(a.xyz_cartn), ex[j].r, B, Bi) < 1e-6)  break;
            if (j == ex.size())  vt::fail(what + " unexpected equivalent position " + ref::str(ref::mul(ref::fromR3(a.xyz_cartn), Bi)));
            used[j] = true;
            if (ex.size() == m.ops.size() || !m.sites[i].aniso)
                for (int p = 0; p < 3; ++p)  for (int q = 0; q < 3; ++q)
                    vt::checkClose(what + " U of equivalent atom", a.uij_cartn(p, q), ex[j].U[p][q], 1e-7, 1e-9);
            VT_CHECK(a.atomtype == m.sites[i].type && a.occupancy == m.sites[i].occ && a.anisotropy == m.sites[i].aniso, what);
        }
        if (ex.size() < m.ops.size())  c.label("special position");
        if (ex.size() > 1)  c.nontrivial();
        ncell += ex.size();
        totocc += m.sites[i].occ * ex.size();
    }
    vt::checkClose("total occupancy", s->totalOccupancy(), totocc, 1e-12, 1e-12);
    vt::checkClose("number density", s->numberDensity(), totocc / ref::volume(m), 1e-9, 1e-12);
    if (!heavy || ncell > 100 || m.sites.empty())  return;
    for (size_t i = 0; i < m.sites.size(); ++i)
        if (m.sites[i].aniso && x->siteMultiplicity(i) != int(m.ops.size()))  return;
    if (ref::hasAmbiguousSelf(m))  return;
    // evaluation of the external object
    c.label("calculator");
    calc::Kind kind = c.oneof({PDF, DEBYE, BOND, COUNTER, OVERLAP, BVS});
    PQPtr a = calc::make(kind), b = calc::make(kind);
    double rmax = ref::clearLimit(m, min(3.5, 2 + 30.0 / ncell));
    // no pair at the very end of the extended range
    double pdfext = ref::clearLimit(m, 5.0) - 4.0;
    for (PQPtr p : {a, b})
    {
        if (kind == PDF || kind == DEBYE)
        {
            p->setDoubleAttr("rmax", 4.0);
            p->setDoubleAttr("rstep", 0.05);
            p->setDoubleAttr("qmax", 12.0);
            p->setDoubleAttr("maxextension", pdfext);
            if (kind == DEBYE)  p->setDoubleAttr("debyeprecision", 1e-12);
        }
        else  p->setRmax(rmax);
    }
    a->eval(cr);
    // operations in the adapter may be in a different order
    ref::Model m1 = m;
    m1.ops.clear();
    for (int i = 0; i < x->countSymOps(); ++i)
    {
        ref::Op op;
        op.R = ref::fromR3(x->getSymOp(i).R);
        op.t = ref::fromR3(x->getSymOp(i).t);
        m1.ops.push_back(op);
    }
    b->eval(ref::build(m1));
    compareResults(string("evaluation of the crystal by ") + kindnames[kind], results(*a, true), results(*b, true), 1e-6, 1e-6);
    // distances against exhaustive search
    if (kind == BOND)
    {
        vector<vector<ref::Bond> > rb = ref::allBonds(m1, 0, rmax);
        size_t n = 0;
        for (auto& v : rb)  n += v.size();
        VT_CHECK(results(*a).bonds.size() == n, "number of bonds");
    }
}

}   // namespace


VT_PROP(crystals, "a site with more than one equivalent atom", 4000, 120000)
{
    int ig = c.chance(1, 4) ? 230 + c.below(nother) : c.below(230);
    string sg = groupName(ig);
    double ang = M_PI / 2;
    Desc d;
    d.sgname = sg;
    oc::Crystal cr(c.real(3, 8), c.real(3, 8), c.real(3, 8),
            c.real(75, 105) * M_PI / 180, c.real(75, 105) * M_PI / 180,
            c.real(75, 105) * M_PI / 180, sg);
    c.note() << "group " << sg << "\n";
    int np = c.range(1, 3);
    d.powers.resize(np);
    for (int i = 0; i < np; ++i)
    {
        Power& p = d.powers[i];
        p.symbol = symbols[c.below(8)];
        p.obj = new oc::ScatteringPowerAtom("p" + vt::str(i), p.symbol, 0.0);
        cr.AddScatteringPower(p.obj);
        setB(c, p);
    }
    int counter = 0;
    int ns = c.range(0, 4);
    for (int i = 0; i < ns; ++i)  addScatterer(c, d, cr, counter);
    StructureAdapterPtr old;
    ref::Model oldm;
    int nsteps = c.range(0, 3);
    for (int step = 0; step <= nsteps; ++step)
    {
        ref::Model m = modelOf(d, cr);
        StructureAdapterPtr s = createStructureAdapter(cr);
        checkCrystal(c, m, cr, s, step == nsteps || c.flag());
        // earlier conversions do not follow changes of the crystal
        if (old)  checkSites(oldm, old);
        old = s;
        oldm = m;
        if (step == nsteps)  break;
        switch (c.below(8))
        {
            case 0:
                addScatterer(c, d, cr, counter);
                break;
            case 1:
                if (!d.scat.empty())
                {
                    int i = c.below(d.scat.size());
                    cr.RemoveScatterer(&cr.GetScatt(d.scat[i].name));
                    d.scat.erase(d.scat.begin() + i);
                    c.note() << "removed " << i << "\n";
                    // the external library keeps its old list of components
                    // until something else changes
                    addScatterer(c, d, cr, counter, true);
                }
                break;
            case 2:
                if (!d.scat.empty())
                {
                    Scat& q = d.scat[c.below(d.scat.size())];
                    if (q.dummy)  break;
                    q.frac = genFrac(c);
                    oc::Scatterer& o = cr.GetScatt(q.name);
                    o.SetX(q.frac[0]);
                    o.SetY(q.frac[1]);
                    o.SetZ(q.frac[2]);
                    // the external library keeps coordinates between 0 and 1
                    for (int k = 0; k < 3; ++k)
                    {
                        double x = (k == 0) ? o.GetX() : (k == 1) ? o.GetY() : o.GetZ();
                        if (fabs(q.frac[k] - x - floor(q.frac[k] - x + 0.5)) > 1e-9)  vt::fail("harness: coordinate of a scatterer");
                        q.frac[k] = x;
                    }
                    c.note() << "move " << q.name << " " << ref::str(q.frac) << "\n";
                }
                break;
            case 3:
                if (!d.scat.empty())
                {
                    Scat& q = d.scat[c.below(d.scat.size())];
                    if (q.dummy)  break;
                    q.occ = c.oneof({1.0, 0.3, 0.75});
                    cr.GetScatt(q.name).SetOccupancy(q.occ);
                    c.note() << "occupancy " << q.name << " " << q.occ << "\n";
                }
                break;
            case 4:
                setB(c, d.powers[c.below(np)]);
                c.note() << "displacements\n";
                break;
            case 5:
                setLattice(c, cr);
                c.note() << "lattice\n";
                break;
            case 6:
            {
                Power& p = d.powers[c.below(np)];
                p.symbol = symbols[c.below(8)];
                p.obj->SetSymbol(p.symbol);
                setB(c, p);   // the external library resets the displacements
                c.note() << "symbol " << p.symbol << "\n";
                break;
            }
            case 7:
                d.sgname = groupName(c.below(ngroups));
                cr.ChangeSpaceGroup(d.sgname);
                c.note() << "group " << d.sgname << "\n";
                c.label("changed space group");
                break;
        }
        c.label("converted again after edits");
    }
}


VT_PROP(groups, "a space group with more than two operations", 1200, 12000)
{
    int ig = c.below(ngroups);
    string sg = groupName(ig);
    c.note() << "group " << sg << "\n";
    oc::Crystal cr(4, 5, 6, 1.4, 1.5, 1.6, sg);
    oc::ScatteringPowerAtom* p = new oc::ScatteringPowerAtom("p", "C", 0.5);
    cr.AddScatteringPower(p);
    ref::V3 f = ref::v3(c.real(0.02, 0.98), c.real(0.02, 0.98), c.real(0.02, 0.98));
    cr.AddScatterer(new oc::Atom(f[0], f[1], f[2], "a", p));
    StructureAdapterPtr s = createStructureAdapter(cr);
    CrystalStructureAdapterPtr x = boost::dynamic_pointer_cast<CrystalStructureAdapter>(s);
    VT_CHECK(x, "type of the adapter");
    vector<ref::Op> ops = opsByPositions(cr.GetSpaceGroup());
    checkOps(*x, ops);
    // operations make a group
    size_t n = ops.size();
    if (n > 2)  c.nontrivial();
    size_t i = c.below(n), j = c.below(n);
    ref::Op ab;
    const SymOpRotTrans &a = x->getSymOp(i), &b = x->getSymOp(j);
    ab.R = ref::mul(ref::fromR3(a.R), ref::fromR3(b.R));
    ab.t = ref::mul(ref::fromR3(a.R), ref::fromR3(b.t)) + ref::fromR3(a.t);
    bool found = false;
    for (int k = 0; k < x->countSymOps() && !found; ++k)
    {
        ref::Op op;
        op.R = ref::fromR3(x->getSymOp(k).R);
        op.t = ref::fromR3(x->getSymOp(k).t);
        found = sameOp(op, ab);
    }
    VT_CHECK(found, "product of operations " + vt::str(i) + " " + vt::str(j) + " is not an operation");
    // all of them preserve the lattice
    const Lattice& L = x->getLattice();
    double lp[6] = {L.a(), L.b(), L.c(), L.alpha(), L.beta(), L.gamma()};
    ref::M3 B = ref::baseFromPar(lp);
    ref::M3 G = ref::mul(B, ref::trans(B));
    ref::M3 R = ref::fromR3(a.R), G1 = ref::mul(ref::trans(R), ref::mul(G, R));
    for (int p = 0; p < 3; ++p)  for (int q = 0; q < 3; ++q)
        vt::checkClose("metric tensor", G1[p][q], G[p][q], 1e-9, 1e-9);
    // known operations of the groups with the same name
    for (const SpaceGroup& g : spaceGroups())
    {
        if (g.name != cr.GetSpaceGroup().GetName())  continue;
        checkOps(*x, g.ops);
        c.label("operations listed independently");
    }
}


VT_PROP(molecules, "two or more atoms and one that is not dummy", 20000, 500000)
{
    oc::Crystal cr(9, 10, 11, 1.4, 1.5, 1.6, "P 1");
    Desc d;
    int np = c.range(1, 3);
    d.powers.resize(np);
    for (int i = 0; i < np; ++i)
    {
        Power& p = d.powers[i];
        p.symbol = symbols[c.below(8)];
        p.obj = new oc::ScatteringPowerAtom("p" + vt::str(i), p.symbol, 0.0);
        cr.AddScatteringPower(p.obj);
        setB(c, p);
    }
    oc::Molecule* mol = new oc::Molecule(cr, "mol");
    cr.AddScatterer(mol);
    vector<Scat> atoms;
    int n = c.range(0, 7);
    for (int i = 0; i < n; ++i)
    {
        Scat s;
        s.name = "m" + vt::str(i);
        s.dummy = c.chance(1, 5);
        s.power = c.below(np);
        s.frac = ref::v3(c.real(-3, 3), c.real(-3, 3), c.real(-3, 3));
        mol->AddAtom(s.frac[0], s.frac[1], s.frac[2], s.dummy ? 0 : d.powers[s.power].obj, s.name, false);
        if (c.chance(1, 3))
        {
            s.occ = c.oneof({0.5, 0.25});
            mol->GetAtom(i).SetOccupancy(s.occ);
        }
        atoms.push_back(s);
        c.note() << s.name << (s.dummy ? " dummy " : " ") << d.powers[s.power].symbol << " " << ref::str(s.frac) << " " << s.occ << "\n";
        if (s.dummy)  c.label("dummy atom");
    }
    // changes after the atoms were added
    for (int k = c.below(3); k > 0; --k)
    {
        if (c.flag())  setB(c, d.powers[c.below(np)]);
        else if (n)
        {
            Scat& s = atoms[c.below(n)];
            oc::MolAtom& a = mol->GetAtom(s.name);
            s.frac = ref::v3(c.real(-3, 3), c.real(-3, 3), c.real(-3, 3));
            a.SetX(s.frac[0]);
            a.SetY(s.frac[1]);
            a.SetZ(s.frac[2]);
            c.note() << "move " << s.name << " " << ref::str(s.frac) << "\n";
        }
    }
    ref::Model m;
    m.kind = ref::MOLECULE;
    for (const Scat& s : atoms)
    {
        if (s.dummy)  continue;
        const Power& p = d.powers[s.power];
        ref::Site t;
        t.type = p.symbol;
        t.occ = s.occ;
        t.aniso = p.aniso;
        t.U = powerU(p);
        t.r = s.frac;
        m.sites.push_back(t);
    }
    if (n > 1 && m.sites.size() > 0)  c.nontrivial();
    StructureAdapterPtr s = createStructureAdapter(*mol);
    VT_CHECK(!boost::dynamic_pointer_cast<PeriodicStructureAdapter>(s), "molecule must not be periodic");
    VT_CHECK(boost::dynamic_pointer_cast<AtomicStructureAdapter>(s), "type of the adapter");
    checkSites(m, s);
    VT_CHECK(s->numberDensity() == 0.0, "number density");
    if (!m.sites.empty())
    {
        for (size_t i = 0; i < m.sites.size(); ++i)
        {
            BaseBondGeneratorPtr bnds = s->createBondGenerator();
            bnds->setRmax(20);
            bnds->selectAnchorSite(i);
            bnds->selectSiteRange(0, m.sites.size());
            vector<ref::Bond> got;
            for (bnds->rewind(); !bnds->finished(); bnds->next())
            {
                ref::Bond b;
                b.i0 = bnds->site0();
                b.i1 = bnds->site1();
                b.d = bnds->distance();
                b.r01 = ref::fromR3(bnds->r01());
                b.msd = bnds->msd();
                got.push_back(b);
            }
            ref::compareBonds("molecule", got, ref::bonds(m, i, 0, 20), true);
        }
    }
    PDFCalculator pc;
    PQPtr a = calc::make(COUNTER);
    a->setRmax(20);
    a->eval(*mol);
    // coincident atoms do not make a pair
    double npairs = 0;
    for (size_t i = 0; i < m.sites.size(); ++i)
        for (size_t j = 0; j < i; ++j)
        {
            double dij = ref::norm(m.sites[i].r - m.sites[j].r);
            if (dij < 1e-6 && dij > 0)  c.discard();
            npairs += (dij > 0);
        }
    VT_CHECK(a->value()[0] == npairs, "pairs in the molecule " + vt::str(a->value()[0]));
    // the same molecule as a part of the crystal keeps its shape and atoms
    StructureAdapterPtr sc = createStructureAdapter(cr);
    VT_CHECK(sc->countSites() == int(m.sites.size()), "molecule in the crystal");
    for (size_t i = 0; i < m.sites.size(); ++i)
    {
        VT_CHECK(sc->siteAtomType(i) == m.sites[i].type, "type in the crystal");
        VT_CHECK(sc->siteOccupancy(i) == m.sites[i].occ, "occupancy in the crystal");
        for (size_t j = 0; j < i; ++j)
        {
            ref::V3 u = ref::fromR3(sc->siteCartesianPosition(i)) - ref::fromR3(sc->siteCartesianPosition(j));
            vt::checkClose("distance in the crystal", ref::norm(u), ref::norm(m.sites[i].r - m.sites[j].r), 1e-6, 1e-6);
        }
    }
}


VT_PROP(null, "always", 4, 4)
{
    c.nontrivial();
    oc::Crystal cr(4, 5, 6, 1.4, 1.5, 1.6, "P 1");
    StructureAdapterPtr s = createStructureAdapter(cr);
    VT_CHECK(s && s->countSites() == 0, "empty crystal");
    VT_CHECK(s->numberDensity() == 0.0, "density of an empty crystal");
    oc::Molecule* mol = new oc::Molecule(cr, "mol");
    cr.AddScatterer(mol);
    VT_CHECK(createStructureAdapter(*mol)->countSites() == 0, "empty molecule");
}
