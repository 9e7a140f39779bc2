// C06 Symmetry expansion is exact and calculator-independent
#include "calc.hpp"
#include <diffpy/srreal/ConstantRadiiTable.hpp>

using namespace std;
using namespace calc;
using namespace diffpy::srreal;

namespace {

// images of a site are either much closer than eps or much farther
bool clearImages(const ref::Model& m, int idx, double eps)
{
    ref::M3 B = m.base(), Bi = ref::inv(B);
    ref::V3 f0 = ref::mul(m.sites[idx].r, Bi);
    vector<ref::V3> f;
    for (const ref::Op& op : m.ops)  f.push_back(ref::mul(op.R, f0) + op.t);
    for (size_t i = 0; i < f.size(); ++i)
        for (size_t j = 0; j < i; ++j)
        {
            ref::V3 d = f[i] - f[j];
            for (int k = 0; k < 3; ++k)  d[k] -= floor(d[k] + 0.5);
            double dd = ref::norm(ref::mul(d, B));
            if (dd > 0.3 * eps && dd < 3 * eps)  return false;
        }
    return true;
}


double cellDistance(const ref::V3& a, const ref::V3& b, const ref::M3& B, const ref::M3& Bi)
{
    ref::V3 d = ref::mul(a - b, Bi);
    for (int k = 0; k < 3; ++k)  d[k] -= floor(d[k] + 0.5);
    return ref::norm(ref::mul(d, B));
}


void checkEquivalent(Case& c, const string& what, const ref::Model& m, int i,
        const vector<ref::ExpSite>& ex, const CrystalStructureAdapter::AtomVector& ea,
        bool cartesian, double eps, bool checkU)
{
    ref::M3 B = m.base(), Bi = ref::inv(B);
    if (ea.size() != ex.size())
        vt::fail(what + ": " + vt::str(ea.size()) + " equivalent atoms, expected " + vt::str(ex.size()));
    vector<bool> usedup(ex.size(), false);
    for (const Atom& a : ea)
    {
        ref::V3 r = ref::fromR3(a.xyz_cartn);
        if (!cartesian)  r = ref::mul(r, B);
        ref::V3 f = ref::mul(r, Bi);
        for (int k = 0; k < 3; ++k)
            if (f[k] < -1e-9 || f[k] > 1 + 1e-9)
                vt::fail(what + ": atom outside of the unit cell " + ref::str(f));
        if (a.atomtype != m.sites[i].type || a.occupancy != m.sites[i].occ ||
                a.anisotropy != m.sites[i].aniso)
            vt::fail(what + ": attributes of the equivalent atom differ from the site");
        int best = -1;
        double bd = 1e9;
        for (size_t j = 0; j < ex.size(); ++j)
        {
            double d = cellDistance(r, ex[j].r, B, Bi);
            if (d < bd)  { bd = d; best = j; }
        }
        if (bd > 1e-7 + 0.05 * eps)
            vt::fail(what + ": unexpected equivalent position " + ref::str(f) + ", nearest expected at distance " + vt::str(bd));
        if (usedup[best])  vt::fail(what + ": equivalent position listed twice");
        usedup[best] = true;
        if (checkU && m.sites[i].aniso)
        {
            ref::M3 U = ref::fromR3(a.uij_cartn);
            if (cartesian)
            {
                for (int p = 0; p < 3; ++p)
                    for (int q = 0; q < 3; ++q)
                        vt::checkClose(what + " U", U[p][q], ex[best].U[p][q], 1e-7, 1e-8);
            }
        }
    }
}

}   // namespace


VT_PROP(expansion, "two or more operations and a site with more than one equivalent atom", 40000, 1000000)
{
    GenOpts so;
    so.molecule = so.periodic = false;
    so.maxsites = 4;
    so.maxcell = 400;
    so.mindist = 0;
    ref::Model m = genModel(c, so);
    double eps = c.oneof({5e-5, 5e-5, 1e-3, 1e-2, 1e-5});
    // shift sites off their positions by less or more than the tolerance
    for (ref::Site& s : m.sites)
        if (c.chance(1, 3))
        {
            double d = eps * c.oneof({0.05, 0.1, 4.0, 20.0});
            s.r = s.r + d * genUnitVector(c);
            c.label(d < eps ? "shift below tolerance" : "shift above tolerance");
        }
    c.note() << m.str() << " eps " << eps << "\n";
    for (size_t i = 0; i < m.sites.size(); ++i)
        if (!clearImages(m, i, eps))  c.discard();
    StructureAdapterPtr stru = ref::build(m);
    CrystalStructureAdapterPtr x = boost::dynamic_pointer_cast<CrystalStructureAdapter>(stru);
    VT_CHECK(x, "crystal");
    bool late = c.flag();
    if (late)
    {
        // query with the default tolerance first
        for (int i = 0; i < x->countSites(); ++i)  x->getEquivalentAtoms(i);
        c.label("tolerance changed after query");
    }
    x->setSymmetryPrecision(eps);
    if (x->getSymmetryPrecision() != eps)  vt::fail("getSymmetryPrecision");
    if (late && c.flag())  x->updateSymmetryPositions();
    if (c.flag())  stru = x->clone();
    if (c.chance(1, 4))  stru = cloneBySerialization(stru);
    x = boost::dynamic_pointer_cast<CrystalStructureAdapter>(stru);
    VT_CHECK(x->countSymOps() == int(m.ops.size()), "operations");
    double totocc = 0;
    int ncell = 0;
    bool multi = false;
    for (size_t i = 0; i < m.sites.size(); ++i)
    {
        vector<ref::ExpSite> ex = ref::expandSite(m, i, eps);
        string what = "site " + vt::str(i);
        // tensors of merged images are equal only for a site symmetric tensor
        bool checkU = true;
        for (const ref::Op& op : m.ops)  (void)op;
        vector<ref::ExpSite> fine = ref::expandSite(m, i, 1e-12);
        checkU = fine.size() == m.ops.size() && ex.size() == m.ops.size();
        checkEquivalent(c, what, m, i, ex, x->getEquivalentAtoms(i), true, eps, checkU || m.ops.empty());
        VT_CHECK(x->siteMultiplicity(i) == int(ex.size()), what);
        totocc += m.sites[i].occ * ex.size();
        ncell += ex.size();
        if (ex.size() > 1)  multi = true;
        // expansion of a fractional atom
        Atom a = ref::toAtom(m.sites[i]);
        x->getLattice();
        a.xyz_cartn = x->getLattice().fractional(a.xyz_cartn);
        if (a.anisotropy)  a.uij_cartn = x->getLattice().fractionalMatrix(a.uij_cartn);
        checkEquivalent(c, what + " expandLatticeAtom", m, i, ex, x->expandLatticeAtom(a), false, eps, false);
        if (ex.size() < m.ops.size())  c.label("special position");
    }
    vt::checkClose("totalOccupancy", x->totalOccupancy(), totocc);
    vt::checkClose("numberDensity", x->numberDensity(), totocc / ref::volume(m));
    c.label(vt::str(m.ops.size()) + " operations");
    if (m.ops.size() > 1 && multi)  c.nontrivial();
}


// equivalent positions follow changes of the operations, the tolerance or the
// number of sites; other edits need updateSymmetryPositions or a bond generator
VT_PROP(upkeep, "a query after a change of operations, tolerance or count that changed some multiplicity", 4000, 120000)
{
    GenOpts so;
    so.molecule = so.periodic = false;
    so.maxsites = 4;
    so.maxcell = 200;
    so.mindist = 0;
    so.minsites = 1;
    ref::Model m = genModel(c, so), other = genModel(c, so);
    double eps = 5e-5;
    StructureAdapterPtr stru = ref::build(m);
    CrystalStructureAdapterPtr x = boost::dynamic_pointer_cast<CrystalStructureAdapter>(stru);
    c.note() << m.str() << "\n";
    int nsteps = c.range(2, 6);
    vector<int> mult;
    for (int step = 0; step < nsteps; ++step)
    {
        switch (c.below(7))
        {
            case 0:
                c.note() << "clearSymOps\n";
                x->clearSymOps();
                m.ops.clear();
                break;
            case 1:
            {
                // operations of the other crystal, in full or in part
                x->clearSymOps();
                m.ops.clear();
                int n = c.flag() ? other.ops.size() : c.range(0, other.ops.size());
                for (int i = 0; i < n; ++i)
                {
                    m.ops.push_back(other.ops[i]);
                    x->addSymOp(ref::toR3(other.ops[i].R), ref::toR3(other.ops[i].t));
                }
                c.note() << "replace operations by " << n << "\n";
                break;
            }
            case 2:
            {
                ref::Op op = {ref::diag(c.flag() ? 1 : -1), ref::v3(0, 0, c.flag() ? 0.5 : 0.25)};
                m.ops.push_back(op);
                SymOpRotTrans so1 = {ref::toR3(op.R), ref::toR3(op.t)};
                x->addSymOp(so1);
                c.note() << "addSymOp " << op.R[0][0] << " " << op.t[2] << "\n";
                break;
            }
            case 3:
                eps = c.oneof({5e-5, 1e-3, 1e-2, 0.3});
                x->setSymmetryPrecision(eps);
                c.note() << "setSymmetryPrecision " << eps << "\n";
                break;
            case 4:
            {
                ref::Site s = c.pick(other.sites);
                s.aniso = false;
                s.r = ref::mul(ref::mul(s.r, ref::inv(other.base())), m.base());
                int pos = c.below(m.sites.size() + 1);
                m.sites.insert(m.sites.begin() + pos, s);
                x->insert(pos, ref::toAtom(s));
                c.note() << "insert " << pos << " " << ref::str(s.r) << "\n";
                break;
            }
            case 5:
            {
                if (m.sites.size() < 2)  break;
                int pos = c.below(m.sites.size());
                m.sites.erase(m.sites.begin() + pos);
                x->erase(pos);
                c.note() << "erase " << pos << "\n";
                break;
            }
            default:
            {
                int i = c.below(m.sites.size());
                m.sites[i].r = ref::mul(ref::v3(c.below(8) / 8.0, c.below(8) / 8.0, c.below(8) / 8.0), m.base());
                x->at(i) = ref::toAtom(m.sites[i]);
                if (c.flag())  x->updateSymmetryPositions();
                else  x->createBondGenerator();
                c.note() << "move " << i << " to " << ref::str(m.sites[i].r) << "\n";
            }
        }
        for (size_t i = 0; i < m.sites.size(); ++i)
            if (!clearImages(m, i, eps))  c.discard();
        vector<int> mu;
        double totocc = 0;
        bool lists = c.flag();
        for (size_t i = 0; i < m.sites.size(); ++i)
        {
            vector<ref::ExpSite> ex = ref::expandSite(m, i, eps);
            string what = "step " + vt::str(step) + " site " + vt::str(i);
            if (lists)
                checkEquivalent(c, what, m, i, ex, x->getEquivalentAtoms(i), true, eps, false);
            else if (x->siteMultiplicity(i) != int(ex.size()))
                vt::fail(what + ": multiplicity " + vt::str(x->siteMultiplicity(i)) + ", expected " + vt::str(ex.size()));
            mu.push_back(ex.size());
            totocc += m.sites[i].occ * ex.size();
        }
        vt::checkClose("totalOccupancy", x->totalOccupancy(), totocc);
        if (step && mu != mult)  c.nontrivial();
        mult = mu;
    }
}


namespace {

// in-cell anchor images of the explicit structure, first image of each site
void compareWithP1(Case& c, Kind k)
{
    GenOpts so = structureOpts(k);
    so.molecule = so.periodic = false;
    so.maxsites = 4;
    so.minsites = 1;
    so.maxcell = c.oneof({16, 24, 40});
    CfgOpts co;
    co.types = typePool(so);
    co.masks = false;
    co.mindebyeprec = 1e-12;
    ref::Model m = genModel(c, so);
    vector<int> parent;
    ref::Model p1 = ref::expandP1(m, &parent);
    // the lists of sites may be in any order
    vector<int> order = c.permutation(p1.sites.size());
    vector<int> oparent;
    ref::Model q1 = p1;
    q1.sites.clear();
    for (int j : order)
    {
        q1.sites.push_back(p1.sites[j]);
        oparent.push_back(parent[j]);
    }
    if (c.chance(1, 3))
    {
        q1.kind = ref::CRYSTAL;
        ref::Op id = {ref::diag(1), ref::v3(0, 0, 0)};
        if (c.flag())  q1.ops.push_back(id);
    }
    StructureAdapterPtr sx = ref::build(m), s1 = ref::build(q1);
    PQPtr qx = make(k), qp = make(k);
    vector<Op> ops;
    ops.push_back(initialConfig(c, k, co));
    int nops = c.below(4);
    for (int i = 0; i < nops; ++i)  ops.push_back(genConfigOp(c, k, co));
    c.note() << kindnames[k];
    for (Op& o : ops)
    {
        c.note() << "; " << o.desc;
        o.fn(*qx);
        o.fn(*qp);
    }
    c.note() << "\n" << m.str() << "\n";
    int ns = m.sites.size(), np = q1.sites.size();
    int nmask = c.below(4);
    for (int i = 0; i < nmask; ++i)
    {
        bool v = c.flag();
        int t = c.below(4);
        if (t == 0)
        {
            qx->maskAllPairs(v);
            qp->maskAllPairs(v);
            c.note() << "mask all " << v << "\n";
        }
        else if (t == 1)
        {
            string a = c.pick(co.types), b = m.sites[c.below(ns)].type;
            qx->setTypeMask(a, b, v);
            qp->setTypeMask(a, b, v);
            // mode of type masks must not be mixed with pair masks
            c.note() << "type mask " << a << " " << b << " " << v << "\n";
            break;
        }
        else
        {
            int a = c.below(ns), b = c.below(ns);
            qx->setPairMask(a, b, v);
            for (int p = 0; p < np; ++p)
                for (int q = 0; q < np; ++q)
                    if (oparent[p] == a && oparent[q] == b)  qp->setPairMask(p, q, v);
            c.note() << "pair mask " << a << " " << b << " " << v << "\n";
        }
    }
    qx->eval(sx);
    qp->eval(s1);
    Results rx = results(*qx, true), rp = results(*qp, true);
    // position of the first image of each site in the explicit structure
    vector<int> first(ns, -1);
    {
        vector<vector<ref::ExpSite> > ex = ref::expandAll(m);
        ref::M3 B = m.base(), Bi = ref::inv(B);
        for (int i = 0; i < ns; ++i)
            for (int p = 0; p < np; ++p)
                if (oparent[p] == i && cellDistance(ex[i][0].r, q1.sites[p].r, B, Bi) < 1e-6)  first[i] = p;
        for (int i = 0; i < ns; ++i)  VT_CHECK(first[i] >= 0, "harness");
    }
    vector<int> mult = ref::multiplicities(m);
    bool uneven = false;
    for (int x : mult)  if (x != mult[0])  uneven = true;
    if (uneven)  c.label("unequal multiplicities");
    bool some = false;
    if (k == PDF || k == DEBYE || k == COUNTER)
    {
        compareResults("crystal", rx, rp, 1e-7, 1e-9);
        for (double v : qx->value())  if (v)  some = true;
    }
    else if (k == BOND)
    {
        vector<ref::Bond> eb;
        for (const ref::Bond& b : rp.bonds)
        {
            int i = oparent[b.i0];
            if (first[i] != b.i0)  continue;
            ref::Bond b1 = b;
            b1.i0 = i;
            b1.i1 = oparent[b.i1];
            eb.push_back(b1);
        }
        ref::compareBonds("crystal", rx.bonds, eb, false, 1e-6);
        some = !eb.empty();
    }
    else if (k == BVS)
    {
        for (int p = 0; p < np; ++p)
        {
            int i = oparent[p];
            vt::checkClose("valence of site " + vt::str(i), rx.arr["value"].at(i), rp.arr["value"].at(p), 1e-8, 1e-9);
            vt::checkClose("bvdiff of site " + vt::str(i), rx.arr["bvdiff"].at(i), rp.arr["bvdiff"].at(p), 1e-8, 1e-9);
            if (rx.arr["value"].at(i))  some = true;
        }
        vt::checkClose("bvmsdiff", rx.arr["bvmsdiff"][0], rp.arr["bvmsdiff"][0], 1e-8, 1e-9);
        vt::checkClose("bvrmsdiff", rx.arr["bvrmsdiff"][0], rp.arr["bvrmsdiff"][0], 1e-8, 1e-9);
        vt::checkClose("rmaxused", rx.arr["rmaxused"][0], rp.arr["rmaxused"][0]);
    }
    else if (k == OVERLAP)
    {
        const OverlapCalculator& ox = dynamic_cast<OverlapCalculator&>(*qx);
        const OverlapCalculator& op = dynamic_cast<OverlapCalculator&>(*qp);
        vector<ref::Bond> eb;
        for (const ref::Bond& b : rp.bonds)
        {
            int i = oparent[b.i0];
            if (first[i] != b.i0)  continue;
            ref::Bond b1 = b;
            b1.i0 = i;
            b1.i1 = oparent[b.i1];
            eb.push_back(b1);
        }
        ref::compareBonds("overlaps", rx.bonds, eb, true, 1e-6);
        for (int p = 0; p < np; ++p)
        {
            int i = oparent[p];
            string si = " of site " + vt::str(i);
            vt::checkClose("square overlap" + si, rx.arr["sitesq"].at(i), rp.arr["sitesq"].at(p), 1e-8, 1e-9);
            vt::checkClose("coordination" + si, rx.arr["coordinations"].at(i), rp.arr["coordinations"].at(p), 1e-8, 1e-9);
            set<int> nx, nn;
            for (int j : ox.getNeighborSites(i))  nx.insert(j);
            for (int j : op.getNeighborSites(p))  nn.insert(oparent[j]);
            if (nx != nn)  vt::fail("neighbor sites" + si + ": " + vt::strv(nx) + " explicit " + vt::strv(nn));
            auto cx = ox.coordinationByTypes(i), cp = op.coordinationByTypes(p);
            if (cx.size() != cp.size())  vt::fail("types in coordinationByTypes" + si);
            for (auto& kv : cx)
            {
                if (!cp.count(kv.first))  vt::fail("coordinationByTypes misses " + kv.first);
                vt::checkClose("coordinationByTypes" + si + " " + kv.first, kv.second, cp[kv.first], 1e-8, 1e-9);
            }
        }
        vt::checkClose("total", rx.arr["totalsq"][0], rp.arr["totalsq"][0], 1e-8, 1e-9);
        vt::checkClose("mean", rx.arr["meansq"][0], rp.arr["meansq"][0], 1e-8, 1e-9);
        some = !eb.empty();
        // connected sets of sites
        set<set<int> > hx, hp;
        for (auto& h : ox.neighborhoods())  hx.insert(set<int>(h.begin(), h.end()));
        vector<set<int> > join;
        for (auto& h : op.neighborhoods())
        {
            set<int> u;
            for (int j : h)  u.insert(oparent[j]);
            vector<set<int> > rest;
            for (auto& s : join)
            {
                bool meets = false;
                for (int j : s)  if (u.count(j))  meets = true;
                if (meets)  u.insert(s.begin(), s.end());
                else  rest.push_back(s);
            }
            rest.push_back(u);
            join = rest;
        }
        hp.insert(join.begin(), join.end());
        if (hx != hp)  vt::fail("neighborhoods differ");
    }
    if (some && np > ns)  c.nontrivial();
}

}   // namespace

VT_PROP(pdf, "more atoms than sites and a non-zero result", 3000*3, 80000*3) { compareWithP1(c, PDF); }
VT_PROP(debye, "more atoms than sites and a non-zero result", 2000*3, 50000*3) { compareWithP1(c, DEBYE); }
VT_PROP(bond, "more atoms than sites and a non-zero result", 4000*3, 80000*3) { compareWithP1(c, BOND); }
VT_PROP(bvs, "more atoms than sites and a non-zero result", 4000*3, 80000*3) { compareWithP1(c, BVS); }
VT_PROP(overlap, "more atoms than sites and a non-zero result", 4000*3, 80000*3) { compareWithP1(c, OVERLAP); }
VT_PROP(counter, "more atoms than sites and a non-zero result", 3000*3, 60000*3) { compareWithP1(c, COUNTER); }
