// C14 Results are invariant under equivalent descriptions
//
// Metamorphic test: the same structure in another description must give the
// same results, with per-site results following the sites.
#include "calc.hpp"

using namespace std;
using namespace calc;
using namespace diffpy::srreal;

namespace {

// A description derived from another one.
struct Equiv
{
    ref::Model m;
    vector<int> parent;     // index of the original site
    ref::M3 Q = ref::diag(1);   // Cartesian rotation of row vectors, r' = r Q
    double ncells = 1;      // number of original cells
    bool anchors = true;    // directions of bonds can be compared
    string desc;
};


ref::M3 rotU(const ref::M3& U, const ref::M3& Q)
{
    return ref::mul(ref::trans(Q), ref::mul(U, Q));
}


// lattice parameters of a base
void parOf(const ref::M3& B, double* par)
{
    ref::V3 v[3];
    for (int i = 0; i < 3; ++i)  v[i] = ref::v3(B[i][0], B[i][1], B[i][2]);
    for (int i = 0; i < 3; ++i)
    {
        par[i] = ref::norm(v[i]);
        const ref::V3& p = v[(i + 1) % 3];
        const ref::V3& q = v[(i + 2) % 3];
        par[3 + i] = 180 / M_PI * atan2(ref::norm(ref::cross(p, q)), ref::dot(p, q));
    }
}


// new base vectors are rows of P times the old ones
void changeCell(Equiv& e, const ref::M3& P)
{
    ref::M3 B = e.m.base();
    ref::M3 B1 = ref::mul(P, B);
    double par[6];
    parOf(B1, par);
    ref::M3 S = ref::baseFromPar(par);
    // S = B1 Q
    ref::M3 Q = ref::mul(ref::inv(B1), S);
    copy(par, par + 6, e.m.par);
    for (ref::Site& s : e.m.sites)
    {
        s.r = ref::mul(s.r, Q);
        if (s.aniso)  s.U = rotU(s.U, Q);
    }
    e.Q = ref::mul(e.Q, Q);
}


// images that are merged within the tolerance, but not identical, are averaged
bool hasFuzzyImages(const ref::Model& m)
{
    ref::M3 B = m.base(), Bi = ref::inv(B);
    for (const ref::Site& s : m.sites)
    {
        vector<ref::V3> f;
        for (const ref::Op& op : m.ops)  f.push_back(ref::mul(op.R, ref::mul(s.r, Bi)) + op.t);
        for (size_t i = 0; i < f.size(); ++i)
            for (size_t j = 0; j < i; ++j)
            {
                ref::V3 d = f[i] - f[j];
                for (int k = 0; k < 3; ++k)  d[k] -= floor(d[k] + 0.5);
                double dd = ref::norm(ref::mul(d, B));
                if (dd > 1e-8 && dd < 1e-3)  return true;
            }
    }
    return false;
}


void transform(Case& c, Equiv& e)
{
    const int n = e.m.sites.size();
    vector<int> choices = {0};
    if (e.m.kind == ref::MOLECULE)  { choices.push_back(1); choices.push_back(2); choices.push_back(1); }
    if (e.m.kind == ref::PERIODIC)
        for (int k : {2, 3, 4, 5, 6, 4, 6})  choices.push_back(k);
    if (e.m.kind == ref::CRYSTAL)
        for (int k : {3, 7, 8, 9})  choices.push_back(k);
    switch (c.pick(choices))
    {
        case 0:
        {
            vector<int> p = c.permutation(n);
            ref::Model m = e.m;
            vector<int> par(n);
            for (int i = 0; i < n; ++i)
            {
                m.sites[i] = e.m.sites[p[i]];
                par[i] = e.parent[p[i]];
            }
            e.m = m;
            e.parent = par;
            e.desc += "permute " + vt::strv(p) + "; ";
            c.label("order of sites");
            break;
        }
        case 1:
        {
            ref::M3 Q = genRotation(c);
            if (c.chance(1, 4))
                for (auto& row : Q)  row[0] = -row[0];
            for (ref::Site& s : e.m.sites)
            {
                s.r = ref::mul(s.r, Q);
                if (s.aniso)  s.U = rotU(s.U, Q);
            }
            e.Q = ref::mul(e.Q, Q);
            e.desc += "rotate " + ref::str(Q) + "; ";
            c.label("rotation");
            break;
        }
        case 2:
        {
            ref::V3 d = ref::v3(c.sreal(8), c.sreal(8), c.sreal(8));
            for (ref::Site& s : e.m.sites)  s.r = s.r + d;
            e.desc += "shift " + ref::str(d) + "; ";
            c.label("translation");
            break;
        }
        case 3:
        {
            ref::M3 B = e.m.base();
            for (ref::Site& s : e.m.sites)
                if (c.flag())
                {
                    ref::V3 k = ref::v3(c.range(-2, 2), c.range(-2, 2), c.range(-2, 2));
                    s.r = s.r + ref::mul(k, B);
                }
            e.desc += "lattice translations; ";
            c.label("lattice translations");
            break;
        }
        case 4:
        {
            // another cell of the same lattice
            ref::M3 P = ref::diag(1);
            int k = c.range(1, 2);
            for (int i = 0; i < k; ++i)
            {
                int a = c.below(3), b = (a + 1 + c.below(2)) % 3;
                int f = c.oneof({1, -1});
                for (int j = 0; j < 3; ++j)  P[a][j] += f * P[b][j];
            }
            changeCell(e, P);
            e.desc += "cell " + ref::str(P) + "; ";
            c.label("another unit cell");
            break;
        }
        case 5:
        {
            // cyclic permutation of axes
            ref::M3 P = ref::diag(0);
            int s = c.range(1, 2);
            for (int i = 0; i < 3; ++i)  P[i][(i + s) % 3] = 1;
            changeCell(e, P);
            e.desc += "axes " + vt::str(s) + "; ";
            c.label("permuted axes");
            break;
        }
        case 6:
        {
            int mult[3] = {1, 1, 1};
            mult[c.below(3)] = c.range(2, 3);
            if (c.chance(1, 3))  mult[c.below(3)] = 2;
            int nc = mult[0] * mult[1] * mult[2];
            if (n * nc > 30)  break;
            ref::M3 B = e.m.base();
            ref::Model m = e.m;
            vector<int> par;
            m.sites.clear();
            bool bycell = c.flag();
            for (int q = 0; q < nc * n; ++q)
            {
                int i = bycell ? q % n : q / nc, cell = bycell ? q / n : q % nc;
                int t0 = cell % mult[0], t1 = cell / mult[0] % mult[1], t2 = cell / mult[0] / mult[1];
                ref::Site s = e.m.sites[i];
                s.r = s.r + ref::mul(ref::v3(t0, t1, t2), B);
                m.sites.push_back(s);
                par.push_back(e.parent[i]);
            }
            for (int k = 0; k < 3; ++k)  m.par[k] *= mult[k];
            e.m = m;
            e.parent = par;
            e.ncells *= nc;
            e.desc += "supercell " + vt::str(mult[0]) + vt::str(mult[1]) + vt::str(mult[2]) + "; ";
            c.label("supercell");
            break;
        }
        case 7:
        {
            // symmetry operations in another order and with lattice translations
            vector<ref::Op> ops;
            for (int i : c.permutation(e.m.ops.size()))  ops.push_back(e.m.ops[i]);
            for (ref::Op& op : ops)
                if (c.chance(1, 3))
                    for (int k = 0; k < 3; ++k)  op.t[k] += c.range(-1, 1);
            e.m.ops = ops;
            e.anchors = false;
            e.desc += "order of operations; ";
            c.label("order of operations");
            break;
        }
        case 8:
        {
            // another equivalent position of some sites
            if (e.m.ops.empty())  break;
            ref::M3 B = e.m.base(), Bi = ref::inv(B);
            for (ref::Site& s : e.m.sites)
            {
                const ref::Op& op = c.pick(e.m.ops);
                ref::V3 f = ref::mul(op.R, ref::mul(s.r, Bi)) + op.t;
                s.r = ref::mul(f, B);
                if (s.aniso)
                {
                    // Cartesian matrix of the operation for row vectors
                    ref::M3 Q = ref::mul(Bi, ref::mul(ref::trans(op.R), B));
                    s.U = rotU(s.U, Q);
                }
            }
            e.anchors = false;
            e.desc += "equivalent positions; ";
            c.label("equivalent positions");
            break;
        }
        default:
        {
            // operations given twice change nothing
            if (e.m.ops.empty() || e.m.ops.size() > 24 || hasFuzzyImages(e.m))  break;
            vector<ref::Op> ops = e.m.ops;
            for (const ref::Op& op : ops)
                if (c.chance(1, 3))  e.m.ops.insert(e.m.ops.begin() + c.below(e.m.ops.size() + 1), op);
            e.anchors = false;
            e.desc += "repeated operations; ";
            c.label("repeated operations");
        }
    }
}


void compareBondLists(const Equiv& e, vector<ref::Bond> bx, const vector<ref::Bond>& bp,
        bool ms, int ns)
{
    // bonds of original sites
    vector<vector<ref::Bond> > by(ns);
    for (ref::Bond& b : bx)  by[b.i0].push_back(b);
    vector<vector<ref::Bond> > got(e.parent.size());
    for (const ref::Bond& b : bp)
    {
        ref::Bond b1 = b;
        b1.i1 = e.parent[b.i1];
        got[b.i0].push_back(b1);
    }
    for (size_t p = 0; p < e.parent.size(); ++p)
    {
        vector<ref::Bond> exp = by[e.parent[p]];
        for (ref::Bond& b : exp)
        {
            b.i0 = p;
            b.r01 = ref::mul(b.r01, e.Q);
        }
        vector<ref::Bond> g = got[p];
        if (!e.anchors)
        {
            for (ref::Bond& b : exp)  b.r01 = ref::v3(0, 0, 0);
            for (ref::Bond& b : g)  b.r01 = ref::v3(0, 0, 0);
        }
        ref::compareBonds("bonds of site " + vt::str(p), g, exp, ms, 1e-6);
    }
}


void invariance(Case& c, Kind k)
{
    GenOpts so = structureOpts(k);
    so.maxsites = 5;
    so.maxcell = 24;
    if (c.chance(1, 3))  so.crystal = so.molecule = false;
    CfgOpts co;
    co.types = typePool(so);
    co.masks = false;
    co.mindebyeprec = 1e-12;
    Equiv e;
    ref::Model m = genModel(c, so);
    if (ref::hasAmbiguousSelf(m))  c.discard();
    e.m = m;
    int ns = m.sites.size();
    for (int i = 0; i < ns; ++i)  e.parent.push_back(i);
    int nt = c.range(1, 4);
    for (int i = 0; i < nt; ++i)  transform(c, e);
    c.note() << m.str() << "\n" << e.desc << "\n" << e.m.str() << "\n";
    int np = e.m.sites.size();
    StructureAdapterPtr s0 = ref::build(m), s1 = ref::build(e.m);
    PQPtr q0 = make(k), q1 = make(k);
    vector<Op> ops;
    ops.push_back(initialConfig(c, k, co));
    int nops = c.below(4);
    for (int i = 0; i < nops; ++i)  ops.push_back(genConfigOp(c, k, co));
    // directions have a meaning only in the original frame
    c.note() << kindnames[k];
    for (Op& o : ops)
    {
        if (o.desc.find("filterCone") == 0)  continue;
        c.note() << "; " << o.desc;
        o.fn(*q0);
        o.fn(*q1);
    }
    c.note() << "\n";
    int nmask = c.below(3);
    for (int i = 0; i < nmask && ns; ++i)
    {
        bool v = c.flag();
        int a = c.below(ns), b = c.below(ns);
        q0->setPairMask(a, b, v);
        for (int p = 0; p < np; ++p)
            for (int q = 0; q < np; ++q)
                if (e.parent[p] == a && e.parent[q] == b)  q1->setPairMask(p, q, v);
        c.note() << "pair mask " << a << " " << b << " " << v << "\n";
    }
    q0->eval(s0);
    // the second structure evaluated by the same calculator with fast updates
    // allowed is covered by other properties
    q1->eval(s1);
    Results r0 = results(*q0, true), r1 = results(*q1, true);
    bool some = false;
    if (k == PDF || k == DEBYE)
    {
        compareResults("results", r1, r0, 1e-7, 1e-9);
        for (double v : q0->value())  if (v)  some = true;
    }
    else if (k == COUNTER)
    {
        vt::checkClose("pair count", q1->value()[0], e.ncells * q0->value()[0]);
        some = q0->value()[0] > 0;
    }
    else if (k == BOND)
    {
        compareBondLists(e, r0.bonds, r1.bonds, false, ns);
        some = !r0.bonds.empty();
    }
    else if (k == BVS)
    {
        for (int p = 0; p < np; ++p)
            for (const char* n : {"value", "valences", "bvdiff"})
                vt::checkClose(string(n) + " of site " + vt::str(p), r1.arr[n].at(p), r0.arr[n].at(e.parent[p]), 1e-8, 1e-9);
        for (const char* n : {"bvmsdiff", "bvrmsdiff", "rmaxused"})
            vt::checkClose(n, r1.arr[n].at(0), r0.arr[n].at(0), 1e-8, 1e-9);
        for (double v : r0.arr["value"])  if (v)  some = true;
    }
    else
    {
        compareBondLists(e, r0.bonds, r1.bonds, true, ns);
        const OverlapCalculator& o0 = dynamic_cast<OverlapCalculator&>(*q0);
        const OverlapCalculator& o1 = dynamic_cast<OverlapCalculator&>(*q1);
        for (int p = 0; p < np; ++p)
        {
            int i = e.parent[p];
            string si = " of site " + vt::str(p);
            vt::checkClose("square overlap" + si, r1.arr["sitesq"].at(p), r0.arr["sitesq"].at(i), 1e-8, 1e-9);
            vt::checkClose("coordination" + si, r1.arr["coordinations"].at(p), r0.arr["coordinations"].at(i), 1e-8, 1e-9);
            auto cx = o0.coordinationByTypes(i), cp = o1.coordinationByTypes(p);
            if (cx.size() != cp.size())  vt::fail("types in coordinationByTypes" + si);
            for (auto& kv : cx)
                vt::checkClose("coordinationByTypes" + si, cp[kv.first], kv.second, 1e-8, 1e-9);
            set<int> n0, n1;
            for (int j : o0.getNeighborSites(i))  n0.insert(j);
            for (int j : o1.getNeighborSites(p))  n1.insert(e.parent[j]);
            if (n0 != n1)  vt::fail("neighbors" + si);
        }
        vt::checkClose("total", r1.arr["totalsq"][0], e.ncells * r0.arr["totalsq"][0], 1e-8, 1e-9);
        vt::checkClose("mean", r1.arr["meansq"][0], r0.arr["meansq"][0], 1e-8, 1e-9);
        some = !r0.bonds.empty();
        if (np == ns)
        {
            // differences for exchanged sites follow the sites
            vector<int> where(ns);
            for (int p = 0; p < np; ++p)  where[e.parent[p]] = p;
            for (int i = 0; i < ns; ++i)
                for (int j = 0; j < ns; ++j)
                    vt::checkClose("flip " + vt::str(i) + " " + vt::str(j),
                            o1.flipDiffTotal(where[i], where[j]), o0.flipDiffTotal(i, j), 1e-7, 1e-8);
            vector<R3::Vector> g0 = o0.gradients(), g1 = o1.gradients();
            if (e.anchors)
                for (int i = 0; i < ns; ++i)
                {
                    ref::V3 x = ref::mul(ref::fromR3(g0[i]), e.Q), y = ref::fromR3(g1[where[i]]);
                    for (int k = 0; k < 3; ++k)
                        vt::checkClose("gradient of site " + vt::str(i), y[k], x[k], 1e-7, 1e-7);
                }
        }
    }
    if (some && ns > 1)  c.nontrivial();
}

}   // namespace

VT_PROP(pdf, "two or more sites and a non-zero result", 15000, 250000) { invariance(c, PDF); }
VT_PROP(debye, "two or more sites and a non-zero result", 8000, 120000) { invariance(c, DEBYE); }
VT_PROP(bond, "two or more sites and a non-zero result", 15000, 250000) { invariance(c, BOND); }
VT_PROP(bvs, "two or more sites and a non-zero result", 15000, 250000) { invariance(c, BVS); }
VT_PROP(overlap, "two or more sites and a non-zero result", 15000, 250000) { invariance(c, OVERLAP); }
VT_PROP(counter, "two or more sites and a non-zero result", 8000, 120000) { invariance(c, COUNTER); }
