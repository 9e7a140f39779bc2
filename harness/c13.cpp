// C13 Atom overlap results follow hard-sphere overlap geometry
#include "calc.hpp"
#include "pdfref.hpp"
#include <diffpy/srreal/ConstantRadiiTable.hpp>

using namespace std;
using namespace calc;
using namespace diffpy::srreal;

namespace {

struct Setup
{
    ref::Model m;
    map<string, double> custom;
    double radius = 0;
    double rmin = 0, rmax = 100;
    pdfref::Masks masks;

    double rad(int i) const
    {
        auto it = custom.find(m.sites[i].type);
        return it == custom.end() ? radius : it->second;
    }
    vector<double> radii() const
    {
        vector<double> rv;
        for (size_t i = 0; i < m.sites.size(); ++i)  rv.push_back(rad(i));
        return rv;
    }
    double used() const
    {
        double mx = -1e300;
        for (double x : radii())  mx = max(mx, x);
        return min(rmax, m.sites.empty() ? 0 : 2 * mx);
    }
};

// all directed bonds in range
vector<ref::Bond> pairs(const Setup& s, double used)
{
    vector<ref::Bond> rv;
    for (size_t i = 0; i < s.m.sites.size(); ++i)
        for (const ref::Bond& b : ref::bonds(s.m, i, s.rmin, used))
            if (s.masks.get(s.m, b.i0, b.i1))  rv.push_back(b);
    return rv;
}

double total(const Setup& s, const vector<ref::Bond>& bonds, const vector<double>& rad,
        const vector<int>& mult)
{
    double rv = 0;
    for (auto& b : bonds)
    {
        double o = rad[b.i0] + rad[b.i1] - b.d;
        if (o > 0)  rv += 0.5 * mult[b.i0] * s.m.sites[b.i0].occ * s.m.sites[b.i1].occ * o * o;
    }
    return rv;
}

struct Outcome { bool useful = false; bool partial = false; bool far = false; };

void check(Case& c, const Setup& s, const OverlapCalculator& q, const string& what, Outcome& oc)
{
    int n = s.m.sites.size();
    double used = s.used();
    vt::checkClose(what + " rmaxused", q.getRmaxUsed(), used, 1e-14, 0);
    VT_CHECK(q.getDoubleAttr("rmaxused") == q.getRmaxUsed(), "rmaxused");
    vector<double> rad = s.radii();
    vector<int> mult = ref::multiplicities(s.m);
    vector<ref::Bond> all = pairs(s, used), over;
    bool tangent = false;
    for (const ref::Bond& b : all)
    {
        double o = rad[b.i0] + rad[b.i1] - b.d;
        // contacts within roundoff
        if (fabs(o) < 1e-7)  tangent = true;
        if (o <= 0)  continue;
        ref::Bond x = b;
        x.msd = o;
        over.push_back(x);
    }
    if (tangent)  c.label("tangent");
    // pairs
    vector<ref::Bond> got;
    QuantityType d = q.distances(), ol = q.overlaps();
    vector<R3::Vector> dir = q.directions();
    SiteIndices s0 = q.sites0(), s1 = q.sites1();
    vector<string> t0 = q.types0(), t1 = q.types1();
    size_t np = d.size();
    VT_CHECK(ol.size() == np && dir.size() == np && s0.size() == np && s1.size() == np &&
            t0.size() == np && t1.size() == np, what << ": different numbers of pairs");
    for (size_t k = 0; k < np; ++k)
    {
        ref::Bond b;
        b.i0 = s0[k]; b.i1 = s1[k]; b.d = d[k]; b.msd = ol[k];
        b.r01 = ref::fromR3(dir[k]);
        VT_CHECK(b.i0 >= 0 && b.i0 < n && b.i1 >= 0 && b.i1 < n, what << ": site index");
        VT_CHECK(t0[k] == s.m.sites[b.i0].type && t1[k] == s.m.sites[b.i1].type, what << ": atom types");
        VT_CHECK(ol[k] > 0, what << ": overlap " << ol[k]);
        vt::checkClose(what + " length of direction", ref::norm(b.r01), b.d, 1e-12, 1e-14);
        vt::checkClose(what + " overlap", b.msd, rad[b.i0] + rad[b.i1] - b.d, 0, 1e-12);
        got.push_back(b);
    }
    if (!tangent)  ref::compareBonds(what, got, over, true);
    // sums
    vector<double> sq(n, 0.0), coord(n, 0.0);
    vector<map<string, double> > bytype(n);
    vector<set<int> > nbs(n);
    vector<ref::V3> grad(n, ref::v3(0, 0, 0));
    double scale = 0;
    for (const ref::Bond& b : over)
    {
        double oi = s.m.sites[b.i0].occ, oj = s.m.sites[b.i1].occ;
        sq[b.i0] += b.msd * b.msd * oj / 2;
        coord[b.i0] += oj;
        bytype[b.i0][s.m.sites[b.i1].type] += oj;
        nbs[b.i0].insert(b.i1);
        grad[b.i0] = grad[b.i0] + (2 * mult[b.i0] * oi * oj * b.msd / b.d) * b.r01;
        scale += mult[b.i0] * fabs(oi * oj) * (b.msd + 1) * (b.msd + 1);
        if (oi != 1 || oj != 1)  oc.partial = true;
    }
    vt::checkCloseSeq(what + " siteSquareOverlaps", q.siteSquareOverlaps(), sq, 1e-9, 1e-12);
    double tot = 0, occ = 0;
    for (int i = 0; i < n; ++i)
    {
        tot += sq[i] * mult[i] * s.m.sites[i].occ;
        occ += mult[i] * s.m.sites[i].occ;
    }
    vt::checkClose(what + " totalSquareOverlap", q.totalSquareOverlap(), tot, 1e-9, 1e-12);
    vt::checkClose(what + " meanSquareOverlap", q.meanSquareOverlap(), occ > 0 ? tot / occ : 0, 1e-9, 1e-12);
    vector<R3::Vector> g = q.gradients();
    VT_CHECK(int(g.size()) == n, what << ": number of gradients");
    for (int i = 0; i < n; ++i)
    {
        ref::V3 x = ref::fromR3(g[i]);
        if (!(ref::norm(x - grad[i]) <= 1e-9 * scale + 1e-9))
            vt::fail(what + ": gradient at site " + vt::str(i) + " is " + ref::str(x) + ", expected " + ref::str(grad[i]));
    }
    // flips
    vector<vector<double> > fl(n, vector<double>(n));
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
        {
            vector<double> r2 = rad;
            swap(r2[i], r2[j]);
            double e = total(s, all, r2, mult) - tot;
            vt::checkClose(what + " flipDiffTotal " + vt::str(i) + " " + vt::str(j), q.flipDiffTotal(i, j), e, 1e-9, 1e-10 * (1 + scale));
            vt::checkClose(what + " flipDiffMean", q.flipDiffMean(i, j), occ > 0 ? e / occ : 0, 1e-9,
                    1e-10 * (1 + scale) / max(1e-6, occ));
            if (fabs(e) > 1e-3)  oc.useful = true;
        }
    if (n)
    {
        int bad = c.oneof({-1, n, n + 3});
        VT_THROWS(q.flipDiffTotal(bad, 0), invalid_argument, "invalid site");
        VT_THROWS(q.flipDiffMean(0, bad), invalid_argument, "invalid site");
    }
    if (!tangent)
    {
        vt::checkCloseSeq(what + " coordinations", q.coordinations(), coord, 1e-12, 1e-12);
        for (int i = 0; i < n; ++i)
        {
            unordered_map<string,double> ct = q.coordinationByTypes(i);
            VT_CHECK(ct.size() == bytype[i].size(), what << ": types in coordination of site " << i);
            for (auto& kv : bytype[i])
            {
                VT_CHECK(ct.count(kv.first), what << ": no coordination by " << kv.first << " at site " << i);
                vt::checkClose(what + " coordination of site " + vt::str(i) + " by " + kv.first,
                        ct[kv.first], kv.second, 1e-12, 1e-12);
            }
            unordered_set<int> nb = q.getNeighborSites(i);
            set<int> ns(nb.begin(), nb.end());
            VT_CHECK(ns == nbs[i], what << ": neighbors of site " << i << " are " << vt::strv(ns) <<
                    ", expected " << vt::strv(nbs[i]));
        }
        // connected components, by repeated relabeling
        vector<int> lb(n);
        for (int i = 0; i < n; ++i)  lb[i] = i;
        for (bool more = true; more; )
        {
            more = false;
            for (const ref::Bond& b : over)
                if (lb[b.i0] != lb[b.i1])
                {
                    lb[b.i0] = lb[b.i1] = min(lb[b.i0], lb[b.i1]);
                    more = true;
                }
        }
        set<set<int> > exp, hoods;
        for (int k = 0; k < n; ++k)
        {
            set<int> x;
            bool allowed = false;
            for (int i = 0; i < n; ++i)
            {
                if (lb[i] == k)  x.insert(i);
                if (s.masks.get(s.m, k, i))  allowed = true;
            }
            if (x.size() > 1 || (x.size() == 1 && allowed))  exp.insert(x);
            if (x.size() > 2)  c.label("neighborhood of 3 or more");
        }
        vector< unordered_set<int> > hh = q.neighborhoods();
        for (auto& h : hh)  hoods.insert(set<int>(h.begin(), h.end()));
        VT_CHECK(hh.size() == hoods.size(), what << ": duplicate neighborhoods");
        if (hoods != exp)
        {
            ostringstream o;
            for (auto& x : hoods)  o << vt::strv(x);
            o << " expected ";
            for (auto& x : exp)  o << vt::strv(x);
            vt::fail(what + ": neighborhoods " + o.str());
        }
    }
    if (over.size() < 3)  oc.useful = false;
}

typedef boost::shared_ptr<OverlapCalculator> OCPtr;

OCPtr bySerialization(const OCPtr& q)
{
    return boost::dynamic_pointer_cast<OverlapCalculator>(cloneBySerialization(calc::PQPtr(q)));
}

void genRadii(Case& c, Setup& s, OverlapCalculator& q, const GenOpts& so)
{
    int nop = c.range(0, 4);
    vector<string> types = typePool(so);
    for (int i = 0; i < nop; ++i)
    {
        AtomRadiiTablePtr tb = q.getAtomRadiiTable();
        string tp = s.m.sites.empty() ? c.pick(types) : c.pick(s.m.sites).type;
        double v = c.oneof({0.9017, 0.6013, 1.3011, 0.4003, 0.0, 1.7009});
        switch (c.below(7))
        {
            case 0:
            case 1:
            case 2:
                if (c.chance(1, 4))  tb->fromString(tp + ":" + vt::str(v));
                else  tb->setCustom(tp, v);
                s.custom[tp] = v;
                c.note() << "radius of " << tp << " " << v << "\n";
                break;
            case 3:
                boost::dynamic_pointer_cast<ConstantRadiiTable>(tb)->setDefault(v);
                s.radius = v;
                c.note() << "radius " << v << "\n";
                break;
            case 4:
                tb->resetCustom(tp);
                s.custom.erase(tp);
                c.note() << "reset " << tp << "\n";
                break;
            case 5:
                if (c.chance(1, 3))
                {
                    tb->resetAll();
                    s.custom.clear();
                    c.note() << "reset all\n";
                }
                else
                {
                    q.setAtomRadiiTable(tb->clone());
                    c.note() << "clone of table\n";
                }
                break;
            default:
                if (c.chance(1, 4))
                {
                    q.setAtomRadiiTableByType("constant");
                    s.custom.clear();
                    s.radius = 0;
                    c.note() << "new table\n";
                }
        }
    }
}

}   // namespace


VT_PROP(overlaps, "at least 3 overlapping pairs, some swap of radii changes the total", 60000, 1000000)
{
    GenOpts so = structureOpts(OVERLAP);
    so.minsites = c.chance(1, 20) ? 0 : 2;
    so.maxcell = 16;
    so.maxsites = c.oneof({4, 7});
    so.cellmin = 2.2;
    so.cellmax = 5;
    so.molsize = 3;
    so.types = {"C", "Na1+", "Cl1-", "O"};
    Setup s;
    s.m = genModel(c, so);
    if (ref::hasAmbiguousSelf(s.m))  c.discard();
    boost::shared_ptr<OverlapCalculator> q(new OverlapCalculator);
    c.note() << s.m.str() << "\n";
    s.radius = c.oneof({0.9017, 0.7019, 1.2023, 0.0});
    boost::dynamic_pointer_cast<ConstantRadiiTable>(q->getAtomRadiiTable())->setDefault(s.radius);
    c.note() << "radius " << s.radius << "\n";
    StructureAdapterPtr stru;
    int rounds = c.range(1, 3);
    Outcome oc;
    bool useful = false;
    for (int r = 0; r < rounds; ++r)
    {
        if (r && c.flag())
        {
            c.note() << mutateModel(c, s.m, so) << "\n";
            if (ref::hasAmbiguousSelf(s.m))  c.discard();
            stru.reset();
        }
        genRadii(c, s, *q, so);
        if (c.chance(1, 5))
        {
            s.rmax = c.oneof({100.0, 1.9003, 2.5007, 0.0});
            q->setRmax(s.rmax);
            c.note() << "rmax " << s.rmax << "\n";
        }
        if (c.chance(1, 5))
        {
            s.rmin = c.oneof({0.0, 1.1003, 1.6007});
            q->setRmin(s.rmin);
            c.note() << "rmin " << s.rmin << "\n";
        }
        // avoid pairs at the limits.  The used limit is tangent.
        if (s.rmax < 100 && ref::clearLimit(s.m, s.rmax) != s.rmax)  c.discard();
        if (s.rmin > 0 && ref::clearLimit(s.m, s.rmin) != s.rmin)  c.discard();
        s.masks = pdfref::genMasks(c, s.m);
        s.masks.apply(*q);
        c.note() << s.masks.str() << "\n";
        int op = c.below(4);
        if (op == 0)
        {
            q.reset(new OverlapCalculator(*q));
            q->setAtomRadiiTable(q->getAtomRadiiTable()->clone());
        }
        if (op == 1)  q = bySerialization(q);
        bool same = stru && q->getStructure() == stru && c.flag();
        if (!stru)  stru = ref::build(s.m);
        if (same)  q->eval();
        else if (c.flag())  q->eval(stru);
        else
        {
            QuantityType v = (*q)(stru);
            VT_CHECK(v == q->siteSquareOverlaps(), "value of function call");
        }
        oc.useful = false;
        check(c, s, *q, "round " + vt::str(r), oc);
        useful = useful || oc.useful;
        if (s.m.kind == ref::CRYSTAL)  c.label("crystal");
        if (s.m.kind == ref::MOLECULE)  c.label("molecule");
        if (oc.partial)  c.label("partial occupancy");
        if (c.chance(1, 6))
        {
            boost::shared_ptr<OverlapCalculator> q1 = c.flag() ? bySerialization(q) :
                boost::shared_ptr<OverlapCalculator>(new OverlapCalculator(*q));
            check(c, s, *q1, "copy", oc);
            c.label("copy");
        }
        if (c.chance(1, 6))
        {
            vector<string> parts;
            int ncpu = c.range(2, 4);
            for (int k = 0; k < ncpu; ++k)
            {
                OverlapCalculator w(*q);
                w.setupParallelRun(k, ncpu);
                w.eval(stru);
                parts.push_back(w.getParallelData());
            }
            OverlapCalculator mq(*q);
            mq.setStructure(stru);
            // query of neighbors before the merge is complete
            if (c.flag() && s.m.sites.size())  mq.getNeighborSites(0);
            for (auto& p : parts)
            {
                mq.mergeParallelData(p, ncpu);
                if (&p != &parts.back() && c.flag() && s.m.sites.size())  mq.getNeighborSites(0);
            }
            check(c, s, mq, "parallel", oc);
            c.label("parallel");
        }
    }
    if (useful)  c.nontrivial();
}


// exact contact is not an overlap
VT_PROP(contact, "exact contact present", 20000, 400000)
{
    GenOpts so;
    OverlapCalculator q;
    double rad = c.range(1, 6) * 0.125;
    boost::dynamic_pointer_cast<ConstantRadiiTable>(q.getAtomRadiiTable())->setDefault(rad);
    // atoms along an axis at dyadic coordinates
    int n = c.range(2, 6);
    int axis = c.below(3);
    vector<int> pos;
    AtomicStructureAdapterPtr mol(new AtomicStructureAdapter);
    PeriodicStructureAdapterPtr per(new PeriodicStructureAdapter);
    bool periodic = c.chance(1, 4);
    per->setLatPar(8, 8, 8, 90, 90, 90);
    if (periodic)  mol = per;
    set<int> upos;
    for (int i = 0; i < n; ++i)
    {
        int x = c.range(0, 30);
        if (!upos.insert(x).second)  continue;
        pos.push_back(x);
        Atom a;
        a.atomtype = "C";
        a.xyz_cartn = R3::Vector(0, 0, 0);
        a.xyz_cartn[axis] = x * 0.125;
        mol->append(a);
    }
    n = pos.size();
    q.eval(mol);
    vector<double> coord = q.coordinations();
    c.note() << "radius " << rad << " positions/8 " << vt::strv(pos) << (periodic ? " periodic" : "") << "\n";
    for (int i = 0; i < n; ++i)
    {
        double e = 0;
        for (int j = 0; j < n; ++j)
        {
            int d = abs(pos[i] - pos[j]);
            if (i != j && d * 0.125 < 2 * rad)  ++e;
            if (d * 0.125 == 2 * rad)  c.nontrivial();
        }
        VT_CHECK(coord[i] == e, "coordination of site " << i << " is " << coord[i] << ", expected " << e);
        VT_CHECK(q.getNeighborSites(i).size() == size_t(e), "neighbors of site " << i);
    }
    for (double x : q.overlaps())  VT_CHECK(x >= 0.125, "overlap " << x);
}


// gradient against numerical derivatives of the total square overlap
VT_PROP(gradient, "gradient of the moved site above 0.1", 40000, 600000)
{
    GenOpts so = structureOpts(OVERLAP);
    so.minsites = 2;
    so.maxsites = 5;
    so.maxcell = 16;
    so.cellmin = 2.2;
    so.cellmax = 5;
    so.molsize = 3;
    so.types = {"C", "Na1+", "O"};
    Setup s;
    s.m = genModel(c, so);
    if (ref::hasAmbiguousSelf(s.m))  c.discard();
    OverlapCalculator q;
    s.radius = c.oneof({0.9017, 1.2023, 0.7019});
    boost::dynamic_pointer_cast<ConstantRadiiTable>(q.getAtomRadiiTable())->setDefault(s.radius);
    if (c.flag())  q.getAtomRadiiTable()->setCustom("O", 1.1007);
    StructureAdapterPtr stru = ref::build(s.m);
    c.note() << s.m.str() << " radius " << s.radius << "\n";
    q.eval(stru);
    vector<R3::Vector> g = q.gradients();
    int i = c.below(s.m.sites.size());
    // only sites that are free to move along the direction
    vector<int> mult = ref::multiplicities(s.m);
    if (s.m.kind == ref::CRYSTAL && mult[i] != int(s.m.ops.size()))  c.discard();
    ref::V3 u = genUnitVector(c);
    double h = 2e-5;
    // lattice translations treat fractional coordinates within 1.5e-8 of
    // an integer as equal to it, keep the shifts larger
    if (s.m.periodic())
    {
        ref::V3 f = ref::mul(ref::inv(ref::trans(s.m.base())), h * u);
        for (double x : f)  if (fabs(x) > 1e-15 && fabs(x) < 1e-7)  c.discard();
    }
    double t[2];
    for (int k = 0; k < 2; ++k)
    {
        ref::Model m1 = s.m;
        m1.sites[i].r = m1.sites[i].r + (k ? h : -h) * u;
        if (ref::multiplicities(m1) != mult || ref::hasAmbiguousSelf(m1))  c.discard();
        q.eval(ref::build(m1));
        t[k] = q.totalSquareOverlap();
    }
    double e = (t[1] - t[0]) / (2 * h);
    // directions are reported from the first symmetry image of the site
    ref::V3 u0 = u;
    if (s.m.kind == ref::CRYSTAL)
    {
        ref::M3 bt = ref::trans(s.m.base());
        u0 = ref::mul(bt, ref::mul(s.m.ops[0].R, ref::mul(ref::inv(bt), u)));
    }
    double x = ref::dot(ref::fromR3(g[i]), u0);
    double tol = 2e-4 * (1 + fabs(x));
    for (auto& b : ref::bonds(s.m, i, 0, 3))  if (b.d < 3)  tol += 1e-5 * mult[i] * (1 + 1 / b.d);
    if (!(fabs(e - x) <= tol))
        vt::fail("gradient at site " + vt::str(i) + " along " + ref::str(u) + " is " + vt::str(x) +
                ", numerical derivative " + vt::str(e));
    if (fabs(x) > 0.1)  c.nontrivial();
    if (s.m.kind == ref::CRYSTAL)  c.label("crystal");
    if (s.m.sites[i].occ != 1)  c.label("partial occupancy");
}
