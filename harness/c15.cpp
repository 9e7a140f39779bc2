// C15 Structures behave as value containers with exact differencing
#include "common.hpp"
#include <unordered_set>
#include <boost/functional/hash.hpp>
#include <diffpy/srreal/Lattice.hpp>
#include <diffpy/srreal/StructureDifference.hpp>

using namespace std;
using namespace diffpy::srreal;

namespace {

// independent view of an atom
struct Flat
{
    string type;
    vector<double> x;
    bool operator==(const Flat& o) const { return type == o.type && x == o.x; }
    bool operator<(const Flat& o) const { return type != o.type ? type < o.type : x < o.x; }
};

Flat flat(const string& type, const R3::Vector& r, double occ, bool aniso, const R3::Matrix& U)
{
    Flat f;
    f.type = type;
    for (int i = 0; i < 3; ++i)  f.x.push_back(r[i]);
    f.x.push_back(occ);
    f.x.push_back(aniso);
    for (int i = 0; i < 3; ++i)  for (int j = 0; j < 3; ++j)  f.x.push_back(U(i, j));
    return f;
}

Flat flat(const Atom& a) { return flat(a.atomtype, a.xyz_cartn, a.occupancy, a.anisotropy, a.uij_cartn); }

Flat flat(const StructureAdapter& s, int i)
{
    return flat(s.siteAtomType(i), s.siteCartesianPosition(i), s.siteOccupancy(i),
            s.siteAnisotropy(i), s.siteCartesianUij(i));
}

string show(const Flat& f) { return f.type + vt::strv(f.x); }

// atoms from a small pool so that equal ones are frequent
Atom genAtom(Case& c)
{
    Atom a;
    a.atomtype = c.oneof<const char*>({"C", "O", "Na1+", "", "C1"});
    for (int i = 0; i < 3; ++i)  a.xyz_cartn[i] = c.oneof({0.0, 0.5, -0.0, 1.25, 1.0});
    a.occupancy = c.oneof({1.0, 1.0, 0.5, 0.0, -0.0});
    a.anisotropy = c.flag();
    double u = c.oneof({0.0, 0.01, 0.02});
    for (int i = 0; i < 3; ++i)  a.uij_cartn(i, i) = u;
    if (a.anisotropy && c.flag())
    {
        int i = c.below(3), j = c.below(3);
        a.uij_cartn(i, j) = a.uij_cartn(j, i) = c.oneof({0.005, 0.03, 0.0, -0.0});
    }
    return a;
}

// change one field
Atom changed(Case& c, Atom a)
{
    double d = c.oneof({1e-16, 1.0, 1e-9, -1e-3});
    auto ch = [&](double x) { double y = x + d; return y == x ? nextafter(x, 1e9) : y; };
    switch (c.below(5))
    {
        case 0:
            a.atomtype += c.oneof<const char*>({"x", "+", " "});
            break;
        case 1:
        {
            int i = c.below(3);
            a.xyz_cartn[i] = ch(a.xyz_cartn[i]);
            break;
        }
        case 2:
            a.occupancy = ch(a.occupancy);
            break;
        case 3:
            a.anisotropy = !a.anisotropy;
            break;
        default:
        {
            int i = c.below(3), j = c.below(3);
            a.uij_cartn(i, j) = ch(a.uij_cartn(i, j));
            if (c.flag())  a.uij_cartn(j, i) = a.uij_cartn(i, j);
        }
    }
    return a;
}

struct AtomHash { size_t operator()(const Atom& a) const { return hash_value(a); } };

}   // namespace


VT_PROP(atoms, "a pair of different atoms that agree in type and a pair of equal distinct objects", 600000, 6000000)
{
    int n = c.range(2, 5);
    vector<Atom> v;
    for (int i = 0; i < n; ++i)
    {
        if (!v.empty() && c.flag())
        {
            Atom a = c.pick(v);
            v.push_back(c.chance(3, 4) ? changed(c, a) : a);
        }
        else  v.push_back(genAtom(c));
        c.note() << show(flat(v.back())) << "\n";
    }
    bool differ = false, same = false;
    for (int i = 0; i < n; ++i)  for (int j = 0; j < n; ++j)
    {
        const Atom& a = v[i];
        const Atom& b = v[j];
        bool eq = flat(a) == flat(b);
        string w = "atoms " + vt::str(i) + " and " + vt::str(j);
        VT_CHECK((a == b) == eq && (a != b) == !eq, w << " equality, expected " << eq);
        int cnt = (a < b) + (b < a);
        VT_CHECK(cnt == (eq ? 0 : 1), w << " ordering a<b " << (a < b) << " b<a " << (b < a) << " equal " << eq);
        VT_CHECK((a > b) == (b < a) && (a <= b) == !(b < a) && (a >= b) == !(a < b), w << " complementary comparisons");
        if (eq)  VT_CHECK(hash_value(a) == hash_value(b), w << " are equal with different hash values");
        if (eq && i != j)  same = true;
        if (!eq && a.atomtype == b.atomtype)  differ = true;
        for (int k = 0; k < n; ++k)
        {
            const Atom& d = v[k];
            VT_CHECK(!(a < b && b < d) || a < d, w << " and " << k << " order is not transitive");
            VT_CHECK(!(a == b && b == d) || a == d, w << " and " << k << " equality is not transitive");
        }
    }
    set<Flat> fs;
    set<Atom> as(v.begin(), v.end());
    unordered_set<Atom, AtomHash> us(v.begin(), v.end());
    for (auto& a : v)  fs.insert(flat(a));
    VT_CHECK(as.size() == fs.size() && us.size() == fs.size(), "distinct atoms " << fs.size() << " set " <<
            as.size() << " hashed " << us.size());
    vector<Atom> s1 = v, s2;
    for (int i : c.permutation(n))  s2.push_back(v[i]);
    sort(s1.begin(), s1.end());
    sort(s2.begin(), s2.end());
    for (int i = 0; i < n; ++i)  VT_CHECK(s1[i] == s2[i], "sorted order depends on the initial order");
    if (differ && same)  c.nontrivial();
}


// containers ------------------------------------------------------------------

namespace {

struct Mdl
{
    int kind = 0;
    vector<Atom> atoms;
    int lat = 0;
    vector<int> ops;
    double prec = 5e-5;
};

const double LATS[5][6] = {
    {1, 1, 1, 90, 90, 90}, {4, 4, 4, 90, 90, 90}, {3, 4, 5, 90, 90, 90}, {3, 4, 5, 80, 95, 110},
    {3.5, 3.5, 6, 90, 90, 120}};

const vector<SymOpRotTrans>& opPool()
{
    static vector<SymOpRotTrans> rv;
    if (rv.empty())
    {
        auto add = [&](double x, double y, double z, double tx, double ty, double tz) {
            SymOpRotTrans op;
            op.R = R3::zeromatrix();
            op.R(0, 0) = x;
            op.R(1, 1) = y;
            op.R(2, 2) = z;
            op.t = R3::Vector(tx, ty, tz);
            rv.push_back(op);
        };
        add(1, 1, 1, 0, 0, 0);
        add(-1, -1, -1, 0, 0, 0);
        add(1, 1, 1, 0.5, 0.5, 0.5);
        add(-1, -1, 1, 0, 0, 0);
        add(1, 1, 1, 0.5, 0.5, 0);
        add(-1, -1, -1, 0.5, 0.5, 0.5);
    }
    return rv;
}

StructureAdapterPtr construct(const Mdl& m)
{
    AtomicStructureAdapterPtr rv;
    if (m.kind == 0)  rv = boost::make_shared<AtomicStructureAdapter>();
    else if (m.kind == 1)  rv = boost::make_shared<PeriodicStructureAdapter>();
    else
    {
        auto p = boost::make_shared<CrystalStructureAdapter>();
        for (int i : m.ops)  p->addSymOp(opPool()[i]);
        p->setSymmetryPrecision(m.prec);
        rv = p;
    }
    if (m.kind)
    {
        const double* l = LATS[m.lat];
        boost::static_pointer_cast<PeriodicStructureAdapter>(rv)->setLatPar(l[0], l[1], l[2], l[3], l[4], l[5]);
    }
    for (auto& a : m.atoms)  rv->append(a);
    return rv;
}

// pairs of sites by content
typedef pair<pair<Flat, Flat>, vector<double> > PairKey;

vector<PairKey> pairKeys(StructureAdapterConstPtr s, double rmax, const set<int>* keep=0)
{
    vector<PairKey> rv;
    BaseBondGeneratorPtr b = s->createBondGenerator();
    b->setRmax(rmax);
    int n = s->countSites();
    for (int i = 0; i < n; ++i)
    {
        if (keep && !keep->count(i))  continue;
        b->selectAnchorSite(i);
        b->selectSiteRange(0, n);
        for (b->rewind(); !b->finished(); b->next())
        {
            if (keep && !keep->count(b->site1()))  continue;
            vector<double> x;
            x.push_back(s->siteMultiplicity(i));
            x.push_back(b->distance());
            R3::Vector r01 = b->r01();
            for (int k = 0; k < 3; ++k)  x.push_back(r01[k]);
            x.push_back(b->multiplicity());
            const R3::Matrix& u0 = b->Ucartesian0();
            const R3::Matrix& u1 = b->Ucartesian1();
            for (int k = 0; k < 3; ++k)  for (int l = 0; l < 3; ++l)  x.push_back(u0(k, l)), x.push_back(u1(k, l));
            rv.push_back(make_pair(make_pair(flat(*s, i), flat(*s, b->site1())), x));
        }
    }
    sort(rv.begin(), rv.end());
    return rv;
}

void checkPairs(const string& what, const vector<PairKey>& a, const vector<PairKey>& b)
{
    if (a == b)  return;
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i])  ++i;
    ostringstream o;
    o << what << ": " << a.size() << " and " << b.size() << " pairs, first difference";
    for (auto* v : {&a, &b})
        if (i < v->size())  o << " (" << show((*v)[i].first.first) << " " << show((*v)[i].first.second) << " " << vt::strv((*v)[i].second) << ")";
        else  o << " (none)";
    vt::fail(o.str());
}

bool sameOps(const Mdl& a, const Mdl& b)
{
    return a.ops == b.ops;
}

bool sameAtoms(const Mdl& a, const Mdl& b)
{
    if (a.atoms.size() != b.atoms.size())  return false;
    for (size_t i = 0; i < a.atoms.size(); ++i)
        if (!(flat(a.atoms[i]) == flat(b.atoms[i])))  return false;
    return true;
}

void checkContent(const string& what, StructureAdapterPtr p, const Mdl& m)
{
    int n = m.atoms.size();
    AtomicStructureAdapter& s = dynamic_cast<AtomicStructureAdapter&>(*p);
    const AtomicStructureAdapter& cs = s;
    VT_CHECK(s.countSites() == n && int(s.size()) == n, what << ": " << s.countSites() << " sites, expected " << n);
    VT_CHECK(s.end() - s.begin() == n && cs.end() - cs.begin() == n && s.rend() - s.rbegin() == n &&
            cs.rend() - cs.rbegin() == n, what << ": iterator range");
    for (int i = 0; i < n; ++i)
    {
        Flat e = flat(m.atoms[i]);
        VT_CHECK(flat(s, i) == e, what << ": site " << i << " is " << show(flat(s, i)) << ", expected " << show(e));
        VT_CHECK(flat(s[i]) == e && flat(cs[i]) == e && flat(s.at(i)) == e && flat(cs.at(i)) == e, what << ": element " << i);
        VT_CHECK(&s[i] == &*(s.begin() + i) && &cs[i] == &*(cs.begin() + i) && &s[n - 1 - i] == &*(s.rbegin() + i) &&
                &cs[n - 1 - i] == &*(cs.rbegin() + i), what << ": iteration order at " << i);
    }
    if (m.kind)
    {
        const Lattice& L = dynamic_cast<PeriodicStructureAdapter&>(s).getLattice();
        const double* l = LATS[m.lat];
        VT_CHECK(L.a() == l[0] && L.b() == l[1] && L.c() == l[2] && L.alpha() == l[3] && L.beta() == l[4] && L.gamma() == l[5],
                what << ": lattice parameters");
    }
    if (m.kind == 2)
    {
        CrystalStructureAdapter& cr = dynamic_cast<CrystalStructureAdapter&>(s);
        VT_CHECK(cr.countSymOps() == int(m.ops.size()), what << ": count of symmetry operations");
        for (size_t i = 0; i < m.ops.size(); ++i)
            VT_CHECK(cr.getSymOp(i) == opPool()[m.ops[i]], what << ": symmetry operation " << i);
        VT_CHECK(cr.getSymmetryPrecision() == m.prec, what << ": symmetry precision");
    }
}

}   // namespace


VT_PROP(container, "at least 4 edits of at least 2 structures with 2 or more atoms", 400000, 6000000)
{
    struct Obj { StructureAdapterPtr p; Mdl m; };
    vector<Obj> objs;
    auto fresh = [&]() {
        Obj o;
        o.m.kind = c.below(3);
        o.p = construct(o.m);
        objs.push_back(o);
    };
    fresh();
    int n = c.range(2, 18);
    int nedit = 0;
    set<int> edited;
    for (int k = 0; k < n; ++k)
    {
        int io = c.below(objs.size());
        ostringstream w;
        w << "object " << io << " ";
        {
            Obj& o = objs[io];
            AtomicStructureAdapter& s = dynamic_cast<AtomicStructureAdapter&>(*o.p);
            PeriodicStructureAdapter* per = dynamic_cast<PeriodicStructureAdapter*>(o.p.get());
            CrystalStructureAdapter* cr = dynamic_cast<CrystalStructureAdapter*>(o.p.get());
            vector<Atom>& v = o.m.atoms;
            int sz = v.size();
            ++nedit;
            switch (c.below(20))
            {
                case 0: case 1: case 2:
                {
                    Atom a = genAtom(c);
                    s.append(a);
                    v.push_back(a);
                    w << "append";
                    break;
                }
                case 3:
                {
                    int i = c.range(0, sz);
                    Atom a = genAtom(c);
                    w << "insert at " << i;
                    auto ii = s.insert(i, a);
                    VT_CHECK(ii - s.begin() == i && flat(*ii) == flat(a), w.str() << ": returned position");
                    v.insert(v.begin() + i, a);
                    break;
                }
                case 4:
                {
                    int i = c.range(0, sz);
                    Atom a = genAtom(c);
                    w << "insert at iterator " << i;
                    auto ii = s.insert(s.begin() + i, a);
                    VT_CHECK(ii - s.begin() == i && flat(*ii) == flat(a), w.str() << ": returned position");
                    v.insert(v.begin() + i, a);
                    break;
                }
                case 5:
                {
                    int i = c.range(0, sz), cnt = c.range(0, 3);
                    vector<Atom> x;
                    for (int j = 0; j < cnt; ++j)  x.push_back(genAtom(c));
                    w << "insert " << cnt << " at iterator " << i;
                    s.insert(s.begin() + i, x.begin(), x.end());
                    v.insert(v.begin() + i, x.begin(), x.end());
                    break;
                }
                case 6:
                {
                    if (!sz)  break;
                    int i = c.below(sz);
                    w << "erase " << i;
                    auto ii = c.flag() ? s.erase(i) : s.erase(s.begin() + i);
                    VT_CHECK(ii - s.begin() == i, w.str() << ": returned position");
                    v.erase(v.begin() + i);
                    break;
                }
                case 7:
                {
                    int i = c.range(0, sz), j = c.range(i, sz);
                    w << "erase range " << i << " " << j;
                    auto ii = s.erase(s.begin() + i, s.begin() + j);
                    VT_CHECK(ii - s.begin() == i, w.str() << ": returned position");
                    v.erase(v.begin() + i, v.begin() + j);
                    break;
                }
                case 8:
                    if (!c.chance(1, 3))  break;
                    w << "clear";
                    s.clear();
                    v.clear();
                    break;
                case 9:
                {
                    int cnt = c.range(0, 4);
                    w << "assign " << cnt;
                    if (c.flag())
                    {
                        Atom a = genAtom(c);
                        s.assign(size_t(cnt), a);
                        v.assign(size_t(cnt), a);
                    }
                    else
                    {
                        vector<Atom> x;
                        for (int j = 0; j < cnt; ++j)  x.push_back(genAtom(c));
                        s.assign(x.begin(), x.end());
                        v = x;
                    }
                    break;
                }
                case 10: case 11:
                {
                    if (!sz)  break;
                    int i = c.below(sz);
                    w << "edit " << i;
                    Atom a = changed(c, v[i]);
                    switch (c.below(3))
                    {
                        case 0: s[i] = a; break;
                        case 1: s.at(i) = a; break;
                        default: *(s.begin() + i) = a;
                    }
                    v[i] = a;
                    break;
                }
                case 12:
                    w << "reserve";
                    s.reserve(c.below(50));
                    break;
                case 13:
                {
                    if (!per)  break;
                    o.m.lat = c.below(5);
                    w << "lattice " << o.m.lat;
                    const double* l = LATS[o.m.lat];
                    per->setLatPar(l[0], l[1], l[2], l[3], l[4], l[5]);
                    break;
                }
                case 14:
                {
                    if (!cr)  break;
                    int i = c.below(opPool().size());
                    w << "add operation " << i;
                    if (c.flag())  cr->addSymOp(opPool()[i]);
                    else  cr->addSymOp(opPool()[i].R, opPool()[i].t);
                    o.m.ops.push_back(i);
                    break;
                }
                case 15:
                    if (!cr)  break;
                    if (c.chance(1, 3))
                    {
                        w << "clear operations";
                        cr->clearSymOps();
                        o.m.ops.clear();
                    }
                    else
                    {
                        o.m.prec = c.oneof({5e-5, 1e-3, 0.1, 2.0});
                        w << "precision " << o.m.prec;
                        cr->setSymmetryPrecision(o.m.prec);
                    }
                    break;
                case 16:
                    // make sure any cached positions exist
                    if (!cr)  break;
                    w << "update";
                    cr->updateSymmetryPositions();
                    break;
                default:
                {
                    --nedit;
                    if (objs.size() >= 5)
                    {
                        w << "drop";
                        objs.erase(objs.begin() + io);
                        break;
                    }
                    Obj o1 = o;
                    switch (c.below(5))
                    {
                        case 0:
                            w << "clone";
                            o1.p = o.p->clone();
                            break;
                        case 1:
                            w << "copy constructor";
                            if (cr)  o1.p.reset(new CrystalStructureAdapter(*cr));
                            else if (per)  o1.p.reset(new PeriodicStructureAdapter(*per));
                            else  o1.p.reset(new AtomicStructureAdapter(s));
                            break;
                        case 2:
                            w << "serialization";
                            o1.p = cloneBySerialization(o.p);
                            break;
                        case 3:
                        {
                            // assignment between the existing objects of the same type
                            vector<int> ids;
                            for (size_t j = 0; j < objs.size(); ++j)  if (objs[j].m.kind == o.m.kind)  ids.push_back(j);
                            int j = c.pick(ids);
                            w << "assigned to " << j;
                            Obj& d = objs[j];
                            if (cr)  dynamic_cast<CrystalStructureAdapter&>(*d.p) = *cr;
                            else if (per)  dynamic_cast<PeriodicStructureAdapter&>(*d.p) = *per;
                            else  dynamic_cast<AtomicStructureAdapter&>(*d.p) = s;
                            Mdl mm = o.m;
                            d.m = mm;
                            o1.p.reset();
                            c.label("assignment");
                            break;
                        }
                        default:
                            w << "new object";
                            fresh();
                            o1.p.reset();
                    }
                    if (o1.p)
                    {
                        VT_CHECK(typeid(*o1.p) == typeid(*objs[io].p), w.str() << ": type of the copy");
                        objs.push_back(o1);
                        c.label("copy");
                    }
                }
            }
        }
        if (io < int(objs.size()) && objs[io].m.atoms.size() >= 2)  edited.insert(io);
        c.note() << w.str() << "\n";
        for (size_t i = 0; i < objs.size(); ++i)  checkContent(w.str() + " -> object " + vt::str(i), objs[i].p, objs[i].m);
        // equality
        for (auto& a : objs)  for (auto& b : objs)
        {
            bool ea = sameAtoms(a.m, b.m);
            {
                auto& x = dynamic_cast<AtomicStructureAdapter&>(*a.p);
                auto& y = dynamic_cast<AtomicStructureAdapter&>(*b.p);
                VT_CHECK((x == y) == ea && (x != y) == !ea, w.str() << ": equality of atoms, expected " << ea);
            }
            if (!a.m.kind || !b.m.kind)  continue;
            bool ep = ea && a.m.lat == b.m.lat;
            {
                auto& x = dynamic_cast<PeriodicStructureAdapter&>(*a.p);
                auto& y = dynamic_cast<PeriodicStructureAdapter&>(*b.p);
                VT_CHECK((x == y) == ep && (x != y) == !ep, w.str() << ": equality of periodic structures, expected " << ep);
            }
            if (a.m.kind != 2 || b.m.kind != 2)  continue;
            // comparison with different symmetry precision is left open
            if (a.m.prec != b.m.prec)  continue;
            bool ec = ep && sameOps(a.m, b.m);
            auto& x = dynamic_cast<CrystalStructureAdapter&>(*a.p);
            auto& y = dynamic_cast<CrystalStructureAdapter&>(*b.p);
            VT_CHECK((x == y) == ec && (x != y) == !ec, w.str() << ": equality of crystals, expected " << ec);
        }
    }
    // edited structures work the same as the ones built at once
    for (auto& o : objs)
    {
        if (o.m.kind && o.m.lat == 0)  continue;
        if (o.m.atoms.size() > 8)  continue;
        StructureAdapterPtr f = construct(o.m);
        if (o.m.kind == 2)
        {
            CrystalStructureAdapter& x = dynamic_cast<CrystalStructureAdapter&>(*o.p);
            CrystalStructureAdapter& y = dynamic_cast<CrystalStructureAdapter&>(*f);
            x.updateSymmetryPositions();
            for (size_t i = 0; i < o.m.atoms.size(); ++i)
            {
                auto& u = x.getEquivalentAtoms(i);
                auto& v = y.getEquivalentAtoms(i);
                VT_CHECK(u.size() == v.size(), "equivalent atoms of " << i << ": " << u.size() << " and " << v.size());
                for (size_t j = 0; j < u.size(); ++j)
                    VT_CHECK(flat(u[j]) == flat(v[j]), "equivalent atom " << j << " of " << i);
                VT_CHECK(x.siteMultiplicity(i) == int(u.size()), "multiplicity");
            }
        }
        if (!c.chance(1, 3))  continue;
        checkPairs("edited and directly built structure", pairKeys(o.p, 3.0), pairKeys(f, 3.0));
        VT_CHECK(o.p->totalOccupancy() == f->totalOccupancy(), "total occupancy");
        VT_CHECK(o.p->numberDensity() == f->numberDensity(), "number density");
        c.label("pairs compared");
    }
    if (nedit >= 4 && edited.size() >= 2)  c.nontrivial();
}


VT_PROP(coordinates, "non-orthogonal lattice and off-diagonal displacement", 500000, 5000000)
{
    GenOpts o;
    double par[6];
    genLatPar(c, par, o);
    PeriodicStructureAdapter s;
    s.setLatPar(par[0], par[1], par[2], par[3], par[4], par[5]);
    Atom a = ref::toAtom(genSite(c, o));
    for (int i = 0; i < 3; ++i)  a.xyz_cartn[i] = c.sreal(2);
    ref::M3 U = genUaniso(c, o);
    a.uij_cartn = ref::toR3(U);
    c.note() << vt::strv(vector<double>(par, par + 6)) << " " << show(flat(a)) << "\n";
    // atom in fractional coordinates
    ref::M3 b = ref::baseFromPar(par);
    ref::V3 x = ref::fromR3(a.xyz_cartn);
    Atom ca = a;
    s.toCartesian(ca);
    VT_CHECK(ca.atomtype == a.atomtype && ca.occupancy == a.occupancy && ca.anisotropy == a.anisotropy, "other data");
    ref::V3 xc = ref::mul(x, b);
    for (int i = 0; i < 3; ++i)  vt::checkClose("Cartesian coordinate", ca.xyz_cartn[i], xc[i], 1e-11, 1e-11);
    // fractional displacement tensors are in the units of normalized reciprocal vectors
    ref::M3 rb = ref::inv(b);       // columns are the reciprocal vectors
    ref::M3 nb = b;
    for (int i = 0; i < 3; ++i)
    {
        double ar = sqrt(rb[0][i] * rb[0][i] + rb[1][i] * rb[1][i] + rb[2][i] * rb[2][i]);
        for (int j = 0; j < 3; ++j)  nb[i][j] *= ar;
    }
    ref::M3 uc = ref::mul(ref::trans(nb), ref::mul(U, nb));
    for (int i = 0; i < 3; ++i)  for (int j = 0; j < 3; ++j)
        vt::checkClose("Cartesian displacement", ca.uij_cartn(i, j), uc[i][j], 1e-10, 1e-11);
    Atom fa = ca;
    s.toFractional(fa);
    for (int i = 0; i < 3; ++i)
    {
        vt::checkClose("fractional coordinate", fa.xyz_cartn[i], x[i], 1e-10, 1e-10);
        for (int j = 0; j < 3; ++j)  vt::checkClose("fractional displacement", fa.uij_cartn(i, j), U[i][j], 1e-9, 1e-10);
    }
    VT_CHECK(fa.atomtype == a.atomtype && fa.occupancy == a.occupancy && fa.anisotropy == a.anisotropy, "other data");
    if ((par[3] != 90 || par[4] != 90 || par[5] != 90) && (U[0][1] || U[0][2] || U[1][2]))  c.nontrivial();
}


// differences -----------------------------------------------------------------

namespace {

void editModel(Case& c, Mdl& m, ostream& w)
{
    int n = m.atoms.size();
    int i = n ? c.below(n) : 0;
    switch (c.below(12))
    {
        case 0: case 1:
            m.atoms.insert(m.atoms.begin() + (n ? c.range(0, n) : 0), genAtom(c));
            w << "insert, ";
            break;
        case 2:
            if (n)  m.atoms.erase(m.atoms.begin() + i);
            w << "erase, ";
            break;
        case 3: case 4: case 5:
        {
            if (!n)  break;
            // keep displacements acceptable for bond generators
            Atom a = changed(c, m.atoms[i]);
            a.uij_cartn = m.atoms[i].uij_cartn;
            a.anisotropy = m.atoms[i].anisotropy;
            if (c.chance(1, 4))  a.uij_cartn = a.uij_cartn + 0.01 * R3::identity();
            if (c.chance(1, 6))  a.anisotropy = true;
            m.atoms[i] = a;
            w << "edit, ";
            break;
        }
        case 6:
        {
            vector<int> p = c.permutation(n);
            vector<Atom> v;
            for (int j : p)  v.push_back(m.atoms[j]);
            m.atoms = v;
            w << "permute, ";
            break;
        }
        case 7:
            if (n)  m.atoms.push_back(m.atoms[i]);
            w << "duplicate, ";
            break;
        case 8:
            if (n > 1)  rotate(m.atoms.begin(), m.atoms.begin() + 1, m.atoms.end());
            w << "rotate, ";
            break;
        case 9:
            if (c.chance(1, 2))  m.lat = 1 + c.below(4);
            w << "lattice, ";
            break;
        case 10:
            if (c.flag() && !m.ops.empty())  m.ops.pop_back();
            else if (c.flag())  m.ops.push_back(c.below(opPool().size()));
            else  reverse(m.ops.begin(), m.ops.end());
            w << "operations, ";
            break;
        default:
            if (c.chance(1, 3))  m.prec = c.oneof({5e-5, 0.1, 2.0});
            if (c.chance(1, 3))  m.kind = c.below(3);
            w << "precision or kind, ";
    }
}

}   // namespace


VT_PROP(difference, "some sites are kept and some are removed or added", 100000, 2500000)
{
    Mdl m0;
    m0.kind = c.below(3);
    m0.lat = 1 + c.below(4);
    int n = c.range(0, 9);
    auto add = [&](Mdl& m) {
        Atom a = genAtom(c);
        // isotropic tensors
        if (!a.anisotropy)  { double u = a.uij_cartn(0, 0); a.uij_cartn = R3::zeromatrix(); for (int k = 0; k < 3; ++k) a.uij_cartn(k, k) = u; }
        m.atoms.push_back(a);
    };
    for (int i = 0; i < n; ++i)  add(m0);
    for (int i = c.range(0, 3); i; --i)  m0.ops.push_back(c.below(opPool().size()));
    Mdl m1 = m0;
    int ne = c.range(0, 5);
    ostringstream w;
    for (int i = 0; i < ne; ++i)  editModel(c, m1, w);
    c.note() << "kind " << m0.kind << " " << m1.kind << ", " << m0.atoms.size() << " and " << m1.atoms.size() << " atoms: " << w.str() << "\n";
    StructureAdapterPtr s0 = construct(m0), s1 = construct(m1);
    if (c.chance(1, 8))
    {
        // in-place clone history
        s1 = s0->clone();
        m1 = m0;
    }
    auto samecontent = [&]() {
        return m0.kind == m1.kind && sameAtoms(m0, m1) && (m0.kind == 0 || m0.lat == m1.lat) &&
            (m0.kind != 2 || (sameOps(m0, m1) && m0.prec == m1.prec));
    };
    for (int dir = 0; dir < 2; ++dir)
    {
        StructureDifference sd = s0->diff(s1);
        string what = string(dir ? "backward" : "forward") + " difference by method " + vt::str(int(sd.diffmethod));
        VT_CHECK(sd.stru0 == s0 && sd.stru1 == s1, what << ": structure pointers");
        int n0 = s0->countSites(), n1 = s1->countSites();
        auto ids = [&](const SiteIndices& v, int nn, const char* nm) {
            set<int> r;
            int last = -1;
            for (int i : v)
            {
                VT_CHECK(i > last && i < nn, what << ": invalid indices " << nm << vt::strv(v));
                last = i;
                r.insert(i);
            }
            return r;
        };
        set<int> pop = ids(sd.pop0, n0, "pop0"), addi = ids(sd.add1, n1, "add1");
        VT_CHECK(sd.allowsfastupdate() == (pop.size() < (1 - sqrt(0.5)) * n0), what << ": fast update " << sd.allowsfastupdate() << " for " << pop.size() << " of " << n0);
        // reconstruction
        multiset<Flat> got, exp;
        set<int> keep0, keep1;
        for (int i = 0; i < n0; ++i)  if (!pop.count(i))  got.insert(flat(*s0, i)), keep0.insert(i);
        for (int i = 0; i < n1; ++i)
        {
            exp.insert(flat(*s1, i));
            if (addi.count(i))  got.insert(flat(*s1, i));
            else  keep1.insert(i);
        }
        VT_CHECK(got == exp, what << ": sites are not reproduced, removed " << vt::strv(pop) << " added " << vt::strv(addi));
        if (samecontent())
        {
            VT_CHECK(pop.empty() && addi.empty(), what << ": equal structures differ in " << vt::strv(pop) << " " << vt::strv(addi));
            c.label("equal content");
        }
        else if (keep0.size() + keep1.size() && m0.kind != m1.kind)
            vt::fail(what + ": sites kept between different kinds of structures");
        // kept sites have the same bonds among themselves
        VT_CHECK(keep0.size() == keep1.size(), what << ": counts of kept sites " << keep0.size() << " and " << keep1.size());
        if (!keep0.empty())
        {
            checkPairs(what + ": pairs of kept sites", pairKeys(s0, 3.1, &keep0), pairKeys(s1, 3.1, &keep1));
            if (pop.size() + addi.size())  c.nontrivial();
            if (sd.diffmethod == StructureDifference::Method::SORTED)
            {
                // nothing in common is removed and added
                set<Flat> f;
                for (int i : pop)  f.insert(flat(*s0, i));
                for (int i : addi)  VT_CHECK(!f.count(flat(*s1, i)), what << ": equal atom is both removed and added");
            }
        }
        if (sd.diffmethod == StructureDifference::Method::SORTED)  c.label("sorted");
        if (sd.diffmethod == StructureDifference::Method::NONE)  c.label("unrelated");
        StructureDifference same = s0->diff(s0);
        VT_CHECK(same.pop0.empty() && same.add1.empty() && same.stru0 == s0 && same.stru1 == s0, "difference from itself");
        StructureDifference toempty = s0->diff(emptyStructureAdapter());
        VT_CHECK(int(toempty.pop0.size()) == n0 && toempty.add1.empty(), "difference from the empty structure");
        StructureDifference fromempty = emptyStructureAdapter()->diff(s0);
        VT_CHECK(int(fromempty.add1.size()) == n0 && fromempty.pop0.empty(), "difference of the empty structure");
        swap(s0, s1);
        swap(m0, m1);
    }
}
