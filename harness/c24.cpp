// C24 Structure wrappers hide exactly one aspect
#include "calc.hpp"
#include <diffpy/srreal/NoMetaStructureAdapter.hpp>
#include <diffpy/srreal/NoSymmetryStructureAdapter.hpp>
#include <diffpy/srreal/StructureDifference.hpp>

using namespace std;
using namespace calc;
using namespace diffpy::srreal;

namespace {

typedef vector<char> Chain;     // wrappers from the innermost, m or s

StructureAdapterPtr wrap1(Case& c, StructureAdapterPtr p, char w)
{
    bool isnm = boost::dynamic_pointer_cast<NoMetaStructureAdapter>(p) != 0;
    bool isns = boost::dynamic_pointer_cast<NoSymmetryStructureAdapter>(p) != 0;
    StructureAdapterPtr rv;
    bool fn = c.flag();
    if (w == 'm')  rv = fn ? nometa(p) : StructureAdapterPtr(new NoMetaStructureAdapter(p));
    else  rv = fn ? nosymmetry(p) : StructureAdapterPtr(new NoSymmetryStructureAdapter(p));
    if (fn && ((w == 'm' && isnm) || (w == 's' && isns)))
        VT_CHECK(rv == p, "second wrapping does not return the same object");
    else  VT_CHECK(rv != p, "wrapper is the wrapped object");
    return rv;
}

StructureAdapterPtr source(StructureAdapterPtr p)
{
    if (auto w = boost::dynamic_pointer_cast<NoMetaStructureAdapter>(p))
    {
        VT_CHECK(boost::shared_ptr<const NoMetaStructureAdapter>(w)->getSourceStructure() == w->getSourceStructure(), "source structure");
        return w->getSourceStructure();
    }
    if (auto w = boost::dynamic_pointer_cast<NoSymmetryStructureAdapter>(p))
    {
        VT_CHECK(boost::shared_ptr<const NoSymmetryStructureAdapter>(w)->getSourceStructure() == w->getSourceStructure(), "source structure");
        return w->getSourceStructure();
    }
    return p;
}

StructureAdapterPtr innermost(StructureAdapterPtr p, string* kinds=0)
{
    for (;;)
    {
        StructureAdapterPtr q = source(p);
        if (q == p)  return p;
        if (kinds)  *kinds += boost::dynamic_pointer_cast<NoMetaStructureAdapter>(p) ? 'm' : 's';
        p = q;
    }
}

// chain of wrappers as they should be after repeated ones are merged, from outside
string merged(const Chain& ch)
{
    string rv;
    for (char w : ch)  if (rv.empty() || rv[0] != w)  rv.insert(rv.begin(), w);
    return rv;
}

ref::Model equivalent(const ref::Model& m, const string& kinds)
{
    ref::Model rv = m;
    if (kinds.find('s') != string::npos)
    {
        rv.kind = ref::MOLECULE;
        rv.ops.clear();
        rv.sg.clear();
    }
    return rv;
}

void checkSites(const string& what, const StructureAdapter& p, const ref::Model& e)
{
    StructureAdapterPtr x = ref::build(e);
    int n = x->countSites();
    VT_CHECK(p.countSites() == n, what << ": count of sites " << p.countSites() << ", expected " << n);
    for (int i = 0; i < n; ++i)
    {
        VT_CHECK(p.siteAtomType(i) == x->siteAtomType(i), what << ": type " << i);
        VT_CHECK(p.siteCartesianPosition(i) == x->siteCartesianPosition(i), what << ": position " << i);
        VT_CHECK(p.siteOccupancy(i) == x->siteOccupancy(i), what << ": occupancy " << i);
        VT_CHECK(p.siteAnisotropy(i) == x->siteAnisotropy(i), what << ": anisotropy " << i);
        VT_CHECK(p.siteCartesianUij(i) == x->siteCartesianUij(i), what << ": displacements " << i);
        VT_CHECK(p.siteMultiplicity(i) == x->siteMultiplicity(i), what << ": multiplicity " << i << " is " << p.siteMultiplicity(i) << ", expected " << x->siteMultiplicity(i));
    }
    VT_CHECK(p.totalOccupancy() == x->totalOccupancy(), what << ": total occupancy");
    VT_CHECK(p.numberDensity() == x->numberDensity(), what << ": number density " << p.numberDensity() << ", expected " << x->numberDensity());
    if (e.kind == ref::MOLECULE)  VT_CHECK(p.numberDensity() == 0, what << ": number density");
}

vector<vector<double> > bondList(const StructureAdapter& s, double rmin, double rmax)
{
    vector<vector<double> > rv;
    BaseBondGeneratorPtr b = s.createBondGenerator();
    b->setRmin(rmin);
    b->setRmax(rmax);
    int n = s.countSites();
    for (int i = 0; i < n; ++i)
    {
        b->selectAnchorSite(i);
        b->selectSiteRange(0, n);
        for (b->rewind(); !b->finished(); b->next())
        {
            vector<double> x = {double(b->site0()), double(b->site1()), double(b->multiplicity()), b->distance()};
            const R3::Vector& r0 = b->r0();
            const R3::Vector& r1 = b->r1();
            for (int k = 0; k < 3; ++k)  x.push_back(r0[k]), x.push_back(r1[k]);
            const R3::Matrix& u0 = b->Ucartesian0();
            const R3::Matrix& u1 = b->Ucartesian1();
            for (int k = 0; k < 3; ++k)  for (int l = 0; l < 3; ++l)  x.push_back(u0(k, l)), x.push_back(u1(k, l));
            x.push_back(b->msd());
            rv.push_back(x);
        }
    }
    return rv;
}

void checkBonds(const string& what, const StructureAdapter& p, const ref::Model& e, double rmin, double rmax)
{
    StructureAdapterPtr x = ref::build(e);
    auto a = bondList(p, rmin, rmax), b = bondList(*x, rmin, rmax);
    sort(a.begin(), a.end());
    sort(b.begin(), b.end());
    VT_CHECK(a.size() == b.size(), what << ": " << a.size() << " bonds, expected " << b.size());
    for (size_t i = 0; i < a.size(); ++i)
        VT_CHECK(a[i] == b[i], what << ": bond " << i << " " << vt::strv(a[i]) << ", expected " << vt::strv(b[i]));
}

// difference of wrapped structures
void checkDiff(const string& what, StructureAdapterPtr a, StructureAdapterPtr b)
{
    StructureDifference sd = a->diff(b);
    VT_CHECK(sd.stru0 == a && sd.stru1 == b, what << ": structure pointers");
    auto key = [](const StructureAdapter& s, int i) {
        ostringstream o;
        o.precision(17);
        o << s.siteAtomType(i) << ' ' << s.siteOccupancy(i) << ' ' << s.siteAnisotropy(i);
        for (double x : ref::fromR3(s.siteCartesianPosition(i)))  o << ' ' << x;
        for (auto& u : ref::fromR3(s.siteCartesianUij(i)))  for (double x : u)  o << ' ' << x;
        return o.str();
    };
    auto ids = [&](const SiteIndices& v, int n) {
        set<int> r;
        for (int i : v)
        {
            VT_CHECK(i >= 0 && i < n && r.insert(i).second, what << ": invalid index " << i);
        }
        return r;
    };
    int n0 = a->countSites(), n1 = b->countSites();
    set<int> pop = ids(sd.pop0, n0), add = ids(sd.add1, n1);
    multiset<string> got, exp;
    vector<vector<double> > k0, k1;
    for (int i = 0; i < n0; ++i)  if (!pop.count(i))  got.insert(key(*a, i));
    for (int i = 0; i < n1; ++i)
    {
        exp.insert(key(*b, i));
        if (add.count(i))  got.insert(key(*b, i));
    }
    VT_CHECK(got == exp, what << ": sites are not reproduced");
    // pairs among the kept sites are the same
    auto pairs = [&](const StructureAdapter& s, const set<int>& out) {
        vector<vector<double> > rv;
        for (auto& x : bondList(s, 0, 4))
        {
            if (out.count(int(x[0])) || out.count(int(x[1])))  continue;
            x.erase(x.begin(), x.begin() + 2);
            rv.push_back(x);
        }
        sort(rv.begin(), rv.end());
        return rv;
    };
    auto p0 = pairs(*a, pop), p1 = pairs(*b, add);
    VT_CHECK(p0 == p1, what << ": pairs of kept sites differ, " << p0.size() << " and " << p1.size());
}

}   // namespace


VT_PROP(wrapper, "periodic or crystal structure with at least 2 sites in 2 or more wrappers", 60000, 1200000)
{
    GenOpts so;
    so.maxsites = 5;
    so.maxcell = 16;
    so.cellmin = 3.0;
    ref::Model m = genModel(c, so);
    StructureAdapterPtr src = ref::build(m);
    c.note() << m.str() << "\n";
    bool empty = c.chance(1, 20);
    if (empty)
    {
        // missing structure is wrapped as an empty one
        src.reset();
        m = ref::Model();
        c.label("missing structure");
    }
    Chain ch;
    StructureAdapterPtr p = src;
    int n = c.range(1, 5);
    for (int i = 0; i < n; ++i)
    {
        ch.push_back(c.oneof({'m', 's'}));
        p = wrap1(c, p, ch.back());
    }
    c.note() << "wrappers " << string(ch.begin(), ch.end()) << "\n";
    string kinds;
    StructureAdapterPtr in = innermost(p, &kinds);
    VT_CHECK(kinds == merged(ch), "wrappers " << kinds << ", expected " << merged(ch));
    if (!empty)  VT_CHECK(in == src, "innermost structure is another object");
    if (c.chance(1, 5))
    {
        // by-value conversion copies the source
        if (!empty)
        {
            StructureAdapterPtr pv = c.flag() ? nometa(*src) : nosymmetry(*src);
            StructureAdapterPtr iv = innermost(pv);
            VT_CHECK(iv != src && typeid(*iv) == typeid(*src), "conversion by value");
            c.label("by value");
        }
    }
    double rmin = c.flag() ? 0 : c.real(0, 3), rmax = rmin + c.real(0, 4);
    auto check = [&](const string& what, StructureAdapterPtr x, const ref::Model& mm) {
        ref::Model e = equivalent(mm, kinds);
        checkSites(what, *x, e);
        checkBonds(what, *x, e, rmin, rmax);
    };
    check("wrapped structure", p, m);
    // history of the source and of the copies
    vector<pair<StructureAdapterPtr, ref::Model> > copies;
    int ne = c.range(0, 4);
    for (int i = 0; i < ne; ++i)
    {
        switch (c.below(3))
        {
            case 0:
            {
                if (empty)  break;
                ref::Model m1 = m;
                string w = mutateModel(c, m1, so);
                if (!editInPlace(src, m1))  break;
                m = m1;
                c.note() << "source " << w << "\n";
                c.label("source edited");
                break;
            }
            case 1:
            {
                StructureAdapterPtr q = p->clone();
                c.note() << "clone\n";
                VT_CHECK(q != p && typeid(*q) == typeid(*p), "cloned wrapper");
                string kq;
                StructureAdapterPtr iq = innermost(q, &kq);
                VT_CHECK(kq == kinds, "wrappers of the clone " << kq << ", expected " << kinds);
                VT_CHECK(empty || iq != src, "clone shares the source");
                copies.push_back(make_pair(q, m));
                break;
            }
            default:
            {
                StructureAdapterPtr q = cloneBySerialization(p);
                c.note() << "serialization\n";
                VT_CHECK(typeid(*q) == typeid(*p), "serialized wrapper");
                string kq;
                StructureAdapterPtr iq = innermost(q, &kq);
                VT_CHECK(kq == kinds, "wrappers of the copy " << kq << ", expected " << kinds);
                copies.push_back(make_pair(q, m));
            }
        }
        if (!copies.empty() && !empty && c.chance(1, 3))
        {
            auto& q = copies[c.below(copies.size())];
            ref::Model m1 = q.second;
            string w = mutateModel(c, m1, so);
            if (editInPlace(innermost(q.first), m1))
            {
                q.second = m1;
                c.note() << "copy " << w << "\n";
                c.label("copy edited");
            }
        }
        check("wrapped structure", p, m);
        for (auto& q : copies)  check("copy of a wrapped structure", q.first, q.second);
    }
    // differences
    copies.push_back(make_pair(p, m));
    for (auto& q : copies)
    {
        checkDiff("difference", p, q.first);
        checkDiff("difference", q.first, p);
    }
    // another wrapping or structure
    ref::Model m2 = m;
    if (c.flag())  mutateModel(c, m2, so);
    StructureAdapterPtr x = c.flag() && src ? src : ref::build(m2);
    int n2 = c.range(0, 3);
    string w2;
    for (int i = 0; i < n2; ++i)
    {
        char w = c.oneof({'m', 's'});
        x = wrap1(c, x, w);
        w2 += w;
    }
    c.note() << "against wrappers " << w2 << "\n";
    checkDiff("difference from another", p, x);
    checkDiff("difference to another", x, p);
    StructureDifference same = p->diff(p);
    VT_CHECK(same.pop0.empty() && same.add1.empty(), "difference from itself");
    // copy without changes has no difference
    StructureDifference sd = p->diff(p->clone());
    if (!empty && !(sd.pop0.empty() && sd.add1.empty()))  vt::fail("difference from a clone");
    if (m.kind != ref::MOLECULE && m.sites.size() >= 2 && kinds.size() >= 2)  c.nontrivial();
    c.label(kinds.find('s') != string::npos ? "no symmetry" : "no metadata");
}


VT_PROP(calculators, "at least 2 compared evaluations with pairs of a periodic source", 60000, 800000)
{
    Kind k = Kind(c.below(NKINDS));
    GenOpts so = structureOpts(k);
    so.maxsites = 5;
    so.maxcell = 12;
    CfgOpts co;
    co.types = typePool(so);
    co.mindebyeprec = 1e-12;
    co.typemasks = c.flag();
    co.pairmasks = !co.typemasks;
    ref::Model m = genModel(c, so);
    co.nsites = max(1, int(m.sites.size()));
    Chain ch;
    StructureAdapterPtr src = ref::build(m);
    auto wrapall = [&](StructureAdapterPtr p) {
        for (char w : ch)  p = wrap1(c, p, w);
        return p;
    };
    for (int i = c.range(1, 3); i; --i)  ch.push_back(c.oneof({'s', 'm'}));
    StructureAdapterPtr p = wrapall(src);
    string kinds = merged(ch);
    PQPtr q = make(k), r = make(k);
    bool opt = supportsOptimized(k) && c.flag();
    q->setEvaluatorType(opt ? OPTIMIZED : BASIC);
    r->setEvaluatorType(BASIC);
    Op o = initialConfig(c, k, co);
    c.note() << kindnames[k] << (opt ? " OPTIMIZED " : " BASIC ") << kinds << "\n" << o.desc << "\n" << m.str() << "\n";
    o.fn(*q);
    o.fn(*r);
    Scales hist;
    int n = c.range(1, 4);
    bool useful = false;
    for (int i = 0; i < n; ++i)
    {
        q->eval(p);
        r->eval(ref::build(equivalent(m, kinds)));
        compareResults("evaluation " + vt::str(i), results(*q), results(*r), 1e-9, 1e-11, &hist);
        if (m.kind != ref::MOLECULE && m.sites.size() >= 2 && i)  useful = true;
        if (i + 1 == n)  break;
        if (c.chance(1, 3))
        {
            co.nsites = max(1, int(m.sites.size()));
            Op x = genConfigOp(c, k, co);
            c.note() << x.desc << "\n";
            x.fn(*q);
            x.fn(*r);
        }
        ref::Model m1 = m;
        string w = mutateModel(c, m1, so);
        c.note() << w << "\n";
        m = m1;
        if (c.flag() && editInPlace(src, m))  c.label("source edited");
        else
        {
            src = ref::build(m);
            p = wrapall(src);
        }
    }
    c.label(kindnames[k]);
    if (opt)  c.label("OPTIMIZED");
    if (useful)  c.nontrivial();
}


// custom configuration --------------------------------------------------------

namespace {

template <class B>
struct CustomStructure : public B
{
    double rmax = 0;
    mutable int ncalls = 0;
    StructureAdapterPtr clone() const override { return StructureAdapterPtr(new CustomStructure(*this)); }
    void customPQConfig(PairQuantity* pq) const override
    {
        ++ncalls;
        pq->setRmax(rmax);
    }
};

template <class B>
void custom(Case& c, const ref::Model& m)
{
    auto s = boost::make_shared<CustomStructure<B> >();
    s->rmax = 2.0 + 0.25 * c.range(0, 12);
    if (!editInPlace(s, m))  vt::fail("harness: model kind");
    Chain ch;
    StructureAdapterPtr p = s;
    int n = c.range(0, 4);
    for (int i = 0; i < n; ++i)
    {
        ch.push_back(c.oneof({'m', 's'}));
        p = wrap1(c, p, ch.back());
    }
    string kinds = merged(ch);
    bool active = kinds.find('m') == string::npos;
    Kind k = Kind(c.below(NKINDS));
    PQPtr q = make(k);
    if (supportsOptimized(k))  q->setEvaluatorType(c.flag() ? OPTIMIZED : BASIC);
    double r0 = 1.5 + 0.125 * c.range(0, 20);
    c.note() << kindnames[k] << " wrappers " << kinds << " custom rmax " << s->rmax << " original " << r0 << "\n" << m.str() << "\n";
    q->setRmax(r0);
    StructureAdapterPtr used = p;
    if (c.chance(1, 3))
    {
        used = p->clone();
        c.label("clone");
    }
    double e = active ? s->rmax : r0;
    switch (c.below(3))
    {
        case 0:
            q->eval(used);
            break;
        case 1:
            q->setStructure(used);
            break;
        default:
            q->eval(used);
            q->setRmax(r0);
            q->eval(used);
    }
    VT_CHECK(q->getRmax() == e, "rmax is " << q->getRmax() << ", expected " << e);
    if (!active)  VT_CHECK(s->ncalls == 0, "custom configuration was called");
    c.label(active ? "active" : "disabled");
    if (!kinds.empty() && s->rmax != r0)  c.nontrivial();
    // the results obey the custom configuration
    q->eval(used);
    // the Debye sum may keep a longer pair range
    if (k == DEBYE)  return;
    PQPtr r = make(k);
    r->setEvaluatorType(BASIC);
    r->setRmax(e);
    r->eval(ref::build(equivalent(m, kinds)));
    compareResults("custom configuration", results(*q), results(*r), 1e-9, 1e-11);
}

}   // namespace


VT_PROP(customconfig, "wrapped structure that asks for another pair range", 40000, 500000)
{
    GenOpts so = structureOpts(BVS);
    so.maxsites = 4;
    so.maxcell = 10;
    ref::Model m = genModel(c, so);
    if (m.kind == ref::MOLECULE)  custom<AtomicStructureAdapter>(c, m);
    else if (m.kind == ref::PERIODIC)  custom<PeriodicStructureAdapter>(c, m);
    else  custom<CrystalStructureAdapter>(c, m);
}
