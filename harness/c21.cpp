// C21 Rejected requests leave objects unchanged
#include "calc.hpp"
#include <diffpy/srreal/BVParametersTable.hpp>
#include <diffpy/srreal/BVParam.hpp>
#include <diffpy/srreal/ConstantRadiiTable.hpp>
#include <diffpy/srreal/ScatteringFactorTable.hpp>

using namespace std;
using namespace calc;
using namespace diffpy::srreal;

namespace {

double badNonNegative(Case& c)
{ return c.oneof({-1.0, -1e-3, -1e-300, -5e100, -HUGE_VAL}); }

double badPositive(Case& c)
{ return c.oneof({0.0, -0.0, -1.0, 1e-300, 1e-16, -1e-16, -HUGE_VAL}); }

const char* const badtypes[] = {"", "bogus", "Gaussian", "xray ", "linear\n",
    "constant2", "ALL", "scale,", "zerro", "debyewaller"};

string badType(Case& c) { return badtypes[c.below(sizeof(badtypes) / sizeof(*badtypes))]; }

const char* const badsymbols[] = {"Zz", "", "bogus", "Qx2+", "na", "Xx"};

string badSymbol(Case& c) { return badsymbols[c.below(sizeof(badsymbols) / sizeof(*badsymbols))]; }


struct Rejected
{
    string desc;
    function<void(PairQuantity&)> fn;
};


PDFCalculator& P(PairQuantity& q) { return dynamic_cast<PDFCalculator&>(q); }
DebyePDFCalculator& Y(PairQuantity& q) { return dynamic_cast<DebyePDFCalculator&>(q); }


// attribute setter with the value that is not allowed
bool badAttribute(Case& c, Kind k, string& name, double& v)
{
    vector<string> nonneg, pos;
    if (k == PDF || k == DEBYE)
    {
        nonneg = {"qmin", "qmax", "rmin", "rmax", "maxextension"};
        pos = {"rstep"};
        if (k == DEBYE)  pos.push_back("qstep");
    }
    if (k == BVS)  pos = {"valenceprecision"};
    size_t n = nonneg.size() + pos.size();
    if (!n)  return false;
    size_t i = c.below(n);
    if (i < nonneg.size())
    {
        name = nonneg[i];
        v = badNonNegative(c);
    }
    else
    {
        name = pos[i - nonneg.size()];
        v = badPositive(c);
    }
    return true;
}


Rejected genRejected(Case& c, Kind k, const PairQuantity& pq, int nsites)
{
    Rejected rv;
    auto mk = [&](const string& d, function<void(PairQuantity&)> f) { rv.desc = d; rv.fn = f; return rv; };
    for (;;)
    {
        int op = c.below(16);
        switch (op)
        {
            // invalid attributes
            case 0:
            case 1:
            {
                string nm;
                double v;
                if (!badAttribute(c, k, nm, v))  break;
                if (op == 0)  return mk("setDoubleAttr " + nm + " " + vt::str(v), [=](PairQuantity& q) { q.setDoubleAttr(nm, v); });
                return mk("setter of " + nm + " " + vt::str(v), [=](PairQuantity& q) {
                    if (nm == "rmin")  k == PDF ? P(q).setRmin(v) : Y(q).setRmin(v);
                    else if (nm == "rmax")  k == PDF ? P(q).setRmax(v) : Y(q).setRmax(v);
                    else if (nm == "rstep")  k == PDF ? P(q).setRstep(v) : Y(q).setRstep(v);
                    else if (nm == "qmin")  k == PDF ? P(q).setQmin(v) : Y(q).setQmin(v);
                    else if (nm == "qmax")  k == PDF ? P(q).setQmax(v) : Y(q).setQmax(v);
                    else if (nm == "maxextension")  k == PDF ? P(q).setMaxExtension(v) : Y(q).setMaxExtension(v);
                    else if (nm == "qstep")  Y(q).setQstep(v);
                    else  q.setDoubleAttr(nm, v);
                });
            }
            case 2:
            {
                string nm = c.oneof<const char*>({"", "bogus", "Rmin", "qdampp", "rmin ", "scale2"});
                double v = c.oneof({1.0, -1.0});
                if (c.flag())  return mk("setDoubleAttr " + nm, [=](PairQuantity& q) { q.setDoubleAttr(nm, v); });
                return mk("getDoubleAttr " + nm, [=](PairQuantity& q) { q.getDoubleAttr(nm); });
            }
            case 3:
            {
                // read-only attributes
                set<string> all = pq.namesOfDoubleAttributes(), wr = pq.namesOfWritableDoubleAttributes();
                vector<string> ro;
                for (const string& s : all)  if (!wr.count(s))  ro.push_back(s);
                if (ro.empty())  break;
                string nm = c.pick(ro);
                return mk("set read-only " + nm, [=](PairQuantity& q) { q.setDoubleAttr(nm, 3.5); });
            }
            case 4:
            {
                int t = c.oneof({77, -1, 4});
                if (!supportsOptimized(k) && c.flag())
                {
                    PQEvaluatorType et = c.flag() ? OPTIMIZED : CHECK;
                    return mk("unsupported evaluator", [=](PairQuantity& q) { q.setEvaluatorType(et); });
                }
                return mk("setEvaluatorType " + vt::str(t), [=](PairQuantity& q) { q.setEvaluatorType(PQEvaluatorType(t)); });
            }
            case 5:
            {
                int n = c.oneof({0, -1, -7}), i = c.oneof({0, 1, 2});
                return mk("setupParallelRun " + vt::str(i) + " of " + vt::str(n), [=](PairQuantity& q) { q.setupParallelRun(i, n); });
            }
            case 6:
            {
                string data;
                int kind = c.below(3);
                if (kind == 1)  data = "bogus";
                if (kind == 2)  data = "22 serialization::archive 0 0";
                int ncpu = c.flag() ? 0 : 3;
                // there is nothing to merge for no CPU-s
                if (ncpu == 0)  data = pq.getParallelData();
                return mk("mergeParallelData ncpu " + vt::str(ncpu) + " kind " + vt::str(kind), [=](PairQuantity& q) { q.mergeParallelData(data, ncpu); });
            }
            case 7:
            case 8:
            {
                if (k != PDF && k != DEBYE)  break;
                string t = badType(c);
                switch (c.below(k == PDF ? 14 : 10))
                {
                    case 0: return mk("null envelope", [=](PairQuantity& q) { dynamic_cast<PDFEnvelopeOwner&>(q).addEnvelope(PDFEnvelopePtr()); });
                    case 1: return mk("envelope " + t, [=](PairQuantity& q) { dynamic_cast<PDFEnvelopeOwner&>(q).addEnvelopeByType(t); });
                    case 2: return mk("get envelope " + t, [=](PairQuantity& q) { dynamic_cast<PDFEnvelopeOwner&>(q).getEnvelopeByType(t); });
                    case 3: return mk("null peak width", [=](PairQuantity& q) { dynamic_cast<PeakWidthModelOwner&>(q).setPeakWidthModel(PeakWidthModelPtr()); });
                    case 4: case 5: return mk("peak width " + t, [=](PairQuantity& q) { dynamic_cast<PeakWidthModelOwner&>(q).setPeakWidthModelByType(t); });
                    case 6: return mk("null scattering factors", [=](PairQuantity& q) { dynamic_cast<ScatteringFactorTableOwner&>(q).setScatteringFactorTable(ScatteringFactorTablePtr()); });
                    case 7: return mk("scattering factors " + t, [=](PairQuantity& q) { dynamic_cast<ScatteringFactorTableOwner&>(q).setScatteringFactorTableByType(t); });
                    case 8:
                    {
                        string s = badSymbol(c);
                        return mk("lookup of [" + s + "]", [=](PairQuantity& q) { dynamic_cast<ScatteringFactorTableOwner&>(q).getScatteringFactorTable()->lookup(s); });
                    }
                    case 9:
                    {
                        string s = badSymbol(c), d = c.oneof<const char*>({"C", "Na1+", "custom", "Ni"});
                        return mk("custom factor as of [" + s + "]", [=](PairQuantity& q) { dynamic_cast<ScatteringFactorTableOwner&>(q).getScatteringFactorTable()->setCustomAs(d, s, 3.0); });
                    }
                    case 10: return mk("null profile", [=](PairQuantity& q) { P(q).setPeakProfile(PeakProfilePtr()); });
                    case 11: return mk("profile " + t, [=](PairQuantity& q) { P(q).setPeakProfileByType(t); });
                    case 12: return mk("null baseline", [=](PairQuantity& q) { P(q).setBaseline(PDFBaselinePtr()); });
                    default: return mk("baseline " + t, [=](PairQuantity& q) { P(q).setBaselineByType(t); });
                }
            }
            case 9:
            case 10:
                if (k == BVS)  return mk("null parameters", [=](PairQuantity& q) { dynamic_cast<BVSCalculator&>(q).setBVParamTable(BVParametersTablePtr()); });
                if (k == BOND)
                {
                    R3::Vector v(0, 0, 0);
                    v[c.below(3)] = c.oneof({0.0, 1e-17, -1e-300});
                    double deg = c.oneof({10.0, 90.0});
                    return mk("cone about zero", [=](PairQuantity& q) { dynamic_cast<BondCalculator&>(q).filterCone(v, deg); });
                }
                break;
            case 11:
            case 12:
            case 13:
            {
                if (k != OVERLAP)  break;
                string t = badType(c);
                int i = c.below(3) - 1, j = nsites + c.below(3);
                bool sw = c.flag();
                // mean for nothing is zero
                switch (c.below(pq.getStructure()->totalOccupancy() > 0 ? 5 : 4))
                {
                    case 0: return mk("null radii", [=](PairQuantity& q) { dynamic_cast<OverlapCalculator&>(q).setAtomRadiiTable(AtomRadiiTablePtr()); });
                    case 1: return mk("radii " + t, [=](PairQuantity& q) { dynamic_cast<OverlapCalculator&>(q).setAtomRadiiTableByType(t); });
                    case 2:
                    {
                        string s = c.oneof<const char*>({"C", "C:1.5,Ni", "C:1.25,Ni:x", "Ni:2,C:1.3.4", "C:0.7,Ni:", "C : 2.1, O2-;", "C:1e,Ni:3", "Na1+:3,:", "C:2,O2-:1.0x"});
                        return mk("radii from " + s, [=](PairQuantity& q) { dynamic_cast<OverlapCalculator&>(q).getAtomRadiiTable()->fromString(s); });
                    }
                    case 3: return mk("flipDiffTotal " + vt::str(i) + " " + vt::str(j), [=](PairQuantity& q) { dynamic_cast<OverlapCalculator&>(q).flipDiffTotal(sw ? i : j, sw ? j : i); });
                    default: return mk("flipDiffMean " + vt::str(i) + " " + vt::str(j), [=](PairQuantity& q) { dynamic_cast<OverlapCalculator&>(q).flipDiffMean(sw ? i : j, sw ? j : i); });
                }
            }
            default:
                break;
        }
    }
}


// apply the rejected call and verify it was rejected
void reject(PairQuantity& q, const Rejected& r)
{
    bool thrown = false;
    try { r.fn(q); }
    catch (const std::exception&) { thrown = true; }
    if (!thrown)  vt::fail("call was not rejected: " + r.desc);
}


void exactResults(const string& what, const Results& a, const Results& b)
{ compareResults(what, a, b, 1e-11, 1e-12); }


void history(Case& c, Kind k, int maxsteps)
{
    GenOpts so = structureOpts(k);
    so.maxsites = 5;
    so.maxcell = 12;
    CfgOpts co;
    co.rmaxhi = 5.5;
    co.types = typePool(so);
    co.types.resize(min<size_t>(co.types.size(), 4));
    co.minprec = 1e-9;
    PQPtr a = calc::make(k), b = calc::make(k);
    ref::Model m = genModel(c, so);
    co.nsites = max(1, int(m.sites.size()));
    c.note() << kindnames[k] << "\n" << m.str() << "\n";
    Op o = initialConfig(c, k, co);
    c.note() << o.desc << "\n";
    o.fn(*a);
    o.fn(*b);
    bool evaluated = false;
    int nrej = 0, nlater = 0;
    auto inject = [&]()
    {
        for (int n = c.below(3); n > 0; --n)
        {
            Rejected r = genRejected(c, k, *a, m.sites.size());
            c.note() << "rejected: " << r.desc << (evaluated ? " (after evaluation)" : "") << "\n";
            ++nrej;
            map<string, string> ca = configOf(*a, co.nsites, co.types);
            Results ra;
            if (evaluated)  ra = results(*a);
            reject(*a, r);
            compareConfig("after rejected " + r.desc, configOf(*a, co.nsites, co.types), ca);
            if (evaluated)  exactResults("after rejected " + r.desc, results(*a), ra);
            // same queries of the other object
            configOf(*b, co.nsites, co.types);
            if (evaluated)  results(*b);
            configOf(*b, co.nsites, co.types);
            if (evaluated)  results(*b);
        }
    };
    inject();
    int nsteps = c.range(1, maxsteps);
    for (int i = 0; i < nsteps; ++i)
    {
        switch (c.below(4))
        {
            case 0:
            case 1:
            {
                if (c.flag() || !evaluated)
                {
                    if (evaluated)  c.note() << "edit " << mutateModel(c, m, so) << "\n";
                    co.nsites = max(1, int(m.sites.size()));
                    StructureAdapterPtr s = ref::build(m);
                    a->eval(s);
                    b->eval(s);
                    c.note() << "eval(stru)\n";
                }
                else
                {
                    a->eval();
                    b->eval();
                    c.note() << "eval()\n";
                }
                VT_CHECK(a->getEvaluatorTypeUsed() == b->getEvaluatorTypeUsed(), "evaluator used");
                exactResults("evaluation", results(*a), results(*b));
                if (nrej)  ++nlater;
                evaluated = true;
                break;
            }
            default:
            {
                o = genConfigOp(c, k, co);
                c.note() << o.desc << "\n";
                o.fn(*a);
                o.fn(*b);
                evaluated = false;
                compareConfig("after " + o.desc, configOf(*a, co.nsites, co.types), configOf(*b, co.nsites, co.types));
                break;
            }
        }
        inject();
    }
    StructureAdapterPtr s = ref::build(m);
    a->eval(s);
    b->eval(s);
    exactResults("last evaluation", results(*a), results(*b));
    // split evaluation is not affected either
    if (nrej)  c.nontrivial();
    c.label(kindnames[k]);
}


// evaluations which fail for unknown atom symbols do not spoil later ones
void failures(Case& c, Kind k, int maxsteps)
{
    GenOpts so = structureOpts(k);
    so.maxsites = c.oneof({4, 8});
    so.maxcell = 16;
    CfgOpts co;
    co.rmaxhi = 5.5;
    co.minprec = 1e-9;
    co.mindebyeprec = 1e-12;
    PQPtr a = calc::make(k), b = calc::make(k);
    b->setEvaluatorType(BASIC);
    ref::Model m = genModel(c, so);
    c.note() << kindnames[k] << "\n" << m.str() << "\n";
    Op o = initialConfig(c, k, co);
    c.note() << o.desc << "\n";
    o.fn(*a);
    o.fn(*b);
    Scales hist;
    int nfail = 0, nfast = 0;
    const int nsteps = c.range(2, maxsteps);
    for (int i = 0; i <= nsteps; ++i)
    {
        ref::Model bad = m;
        bool willfail = i > 0 && i < nsteps && c.chance(1, 3) && !bad.sites.empty();
        if (willfail)
        {
            int j = c.below(bad.sites.size());
            bad.sites[j].type = "Zz";
            if (c.flag())  { c.note() << "edit " << mutateModel(c, bad, so) << "\n"; }
            bool has = false;
            for (const ref::Site& s : bad.sites)  has = has || s.type == "Zz";
            if (!has)  continue;
            ++nfail;
            StructureAdapterPtr s = ref::build(bad);
            bool byset = c.chance(1, 3);
            c.note() << "failed " << (byset ? "setStructure\n" : "eval\n");
            for (PQPtr q : {a, b})
            {
                bool thrown = false;
                try { byset ? (void) q->setStructure(s) : (void) q->eval(s); }
                catch (const std::exception& e) { thrown = true; }
                if (!thrown)
                {
                    // the setter of structures may be content
                    if (!byset)  vt::fail("evaluation with unknown atom symbol did not fail");
                    c.label("setStructure with unknown symbol accepted");
                }
            }
            if (c.chance(1, 4))
            {
                o = initialConfig(c, k, co);
                c.note() << o.desc << "\n";
                o.fn(*a);
                o.fn(*b);
            }
            continue;
        }
        if (i)  c.note() << "edit " << mutateModel(c, m, so) << "\n";
        StructureAdapterPtr s = ref::build(m);
        a->eval(s);
        b->eval(s);
        c.note() << "eval\n";
        if (a->getEvaluatorTypeUsed() == OPTIMIZED)  ++nfast;
        compareResults("evaluation", results(*a), results(*b), 1e-7, 1e-9, &hist);
    }
    // the same from a new object
    StructureAdapterPtr s = ref::build(m);
    a->eval(s);
    b->eval(s);
    compareResults("last evaluation", results(*a), results(*b), 1e-7, 1e-9, &hist);
    if (nfail)  c.nontrivial();
    if (nfast)  c.label("fast update");
}

}   // namespace


VT_PROP(pdf, "a call was rejected", 4000, 100000)
{ history(c, PDF, 6); }

VT_PROP(debye, "a call was rejected", 3000, 60000)
{ history(c, DEBYE, 6); }

VT_PROP(others, "a call was rejected", 5000, 150000)
{ history(c, c.oneof({BOND, BVS, OVERLAP, COUNTER}), 6); }

VT_PROP(failedpdf, "an evaluation failed", 3000, 80000)
{ failures(c, PDF, 8); }

VT_PROP(faileddebye, "an evaluation failed", 3000, 60000)
{ failures(c, DEBYE, 8); }


VT_PROP(lattice, "an invalid base was given to a lattice or a crystal", 20000, 1000000)
{
    double lp[6];
    GenOpts so;
    genLatPar(c, lp, so);
    Lattice L(lp[0], lp[1], lp[2], lp[3], lp[4], lp[5]);
    if (c.flag())
    {
        R3::Matrix B = L.base();
        L.setLatBase(R3::Vector(R3::row(B, 1)), R3::Vector(R3::row(B, 2)), R3::Vector(R3::row(B, 0)));
    }
    const Lattice L0 = L;
    int n = c.range(1, 4);
    for (int k = 0; k < n; ++k)
    {
        R3::Vector v[3];
        for (int i = 0; i < 3; ++i)
            for (int j = 0; j < 3; ++j)  v[i][j] = c.oneof({0.0, 1.0, c.real(-3, 3), c.real(-3, 3)});
        int kind = c.below(3);
        if (kind == 0)  v[2] = c.oneof({0.0, 1.0, -2.0}) * v[0] + c.oneof({0.0, 0.5}) * v[1];
        double det = v[0][0] * (v[1][1] * v[2][2] - v[1][2] * v[2][1]) -
            v[0][1] * (v[1][0] * v[2][2] - v[1][2] * v[2][0]) +
            v[0][2] * (v[1][0] * v[2][1] - v[1][1] * v[2][0]);
        if (kind == 1 && det > 0)  { swap(v[0], v[1]);  det = -det; }
        if (kind == 2)
        {
            // matrix form
            v[2] *= 0.0;
            det = 0;
        }
        if (det >= 1e-9)  continue;
        c.nontrivial();
        c.note() << "rejected base, determinant " << det << "\n";
        if (c.flag())
        {
            vector<double> w[3];
            for (int i = 0; i < 3; ++i)  w[i].assign(v[i].begin(), v[i].end());
            VT_THROWS(L.setLatBase(w[0], w[1], w[2]), std::invalid_argument, "invalid base");
        }
        else  VT_THROWS(L.setLatBase(v[0], v[1], v[2]), std::invalid_argument, "invalid base");
        VT_CHECK(L == L0, "lattice has changed");
        VT_CHECK(L.a() == L0.a() && L.b() == L0.b() && L.c() == L0.c() &&
            L.alpha() == L0.alpha() && L.beta() == L0.beta() && L.gamma() == L0.gamma() &&
            L.ar() == L0.ar() && L.br() == L0.br() && L.cr() == L0.cr() &&
            L.alphar() == L0.alphar() && L.betar() == L0.betar() && L.gammar() == L0.gammar() &&
            L.volume() == L0.volume(), "lattice parameters have changed");
        for (int i = 0; i < 3; ++i)
            for (int j = 0; j < 3; ++j)
                VT_CHECK(L.base()(i, j) == L0.base()(i, j) && L.recbase()(i, j) == L0.recbase()(i, j) &&
                    L.stdbase()(i, j) == L0.stdbase()(i, j) && L.baserot()(i, j) == L0.baserot()(i, j) &&
                    L.metrics()(i, j) == L0.metrics()(i, j) &&
                    L.cartesianMatrix(R3::identity())(i, j) == L0.cartesianMatrix(R3::identity())(i, j),
                    "matrices have changed");
        // later use of the lattice
        Lattice M = L, M0 = L0;
        genLatPar(c, lp, so);
        M.setLatPar(lp[0], lp[1], lp[2], lp[3], lp[4], lp[5]);
        M0.setLatPar(lp[0], lp[1], lp[2], lp[3], lp[4], lp[5]);
        VT_CHECK(M == M0, "later lattice");
    }
}


VT_PROP(crystals, "an invalid precision was given to a crystal with symmetry", 3000, 100000)
{
    GenOpts so;
    so.molecule = so.periodic = false;
    so.maxsites = 4;
    ref::Model m = genModel(c, so);
    c.note() << m.str() << "\n";
    CrystalStructureAdapterPtr x = boost::dynamic_pointer_cast<CrystalStructureAdapter>(ref::build(m));
    CrystalStructureAdapterPtr y = boost::dynamic_pointer_cast<CrystalStructureAdapter>(ref::build(m));
    if (m.ops.size() > 1)  c.nontrivial();
    if (c.flag())
    {
        x->setSymmetryPrecision(1e-3);
        y->setSymmetryPrecision(1e-3);
    }
    double p = x->getSymmetryPrecision();
    for (int k = c.range(1, 3); k > 0; --k)
    {
        double v = badPositive(c);
        VT_THROWS(x->setSymmetryPrecision(v), std::invalid_argument, "precision " + vt::str(v));
        VT_CHECK(x->getSymmetryPrecision() == p, "precision has changed");
    }
    VT_CHECK(*x == *y, "crystal has changed");
    for (int i = 0; i < x->countSites(); ++i)
    {
        VT_CHECK(x->siteMultiplicity(i) == y->siteMultiplicity(i), "multiplicity");
        const CrystalStructureAdapter::AtomVector &ea = x->getEquivalentAtoms(i), &eb = y->getEquivalentAtoms(i);
        VT_CHECK(ea == eb, "equivalent atoms");
    }
}


VT_PROP(tables, "table with custom data", 5000, 200000)
{
    const string tp = c.oneof<const char*>({"xray", "neutron", "electron", "electronnumber"});
    ScatteringFactorTablePtr t = ScatteringFactorTable::createByType(tp);
    ScatteringFactorTablePtr t0 = ScatteringFactorTable::createByType(tp);
    AtomRadiiTablePtr r(new ConstantRadiiTable), r0(new ConstantRadiiTable);
    const char* sm[] = {"C", "Na1+", "Ni", "X1", "D"};
    for (int n = c.below(4); n > 0; --n)
    {
        c.nontrivial();
        string a = sm[c.below(5)], b = sm[c.below(3)];
        double v = c.real(0.5, 9), q = c.oneof({0.0, 1.5});
        t->setCustomAs(a, b, v, q);
        t0->setCustomAs(a, b, v, q);
        r->setCustom(a, v);
        r0->setCustom(a, v);
    }
    for (int n = c.range(1, 3); n > 0; --n)
    {
        string s = badSymbol(c), a = sm[c.below(5)];
        c.note() << "custom " << a << " as [" << s << "]\n";
        VT_THROWS(t->setCustomAs(a, s, 2.5), std::invalid_argument, "source symbol");
        VT_THROWS(t->lookup(s), std::invalid_argument, "lookup");
        VT_THROWS(t->standardLookup(s, 1.5), std::invalid_argument, "standardLookup");
        string txt;
        for (int i = c.range(0, 3); i > 0; --i)  txt += string(sm[c.below(5)]) + ":" + vt::str(c.below(9)) + ".5,";
        txt += c.oneof<const char*>({"C", "C:x", "Ni:1,C:2 x", "C:1.5.2", "C:"});
        c.note() << "radii " << txt << "\n";
        VT_THROWS(r->fromString(txt), std::invalid_argument, "radii text " + txt);
    }
    VT_CHECK(t->ticker() < t0->ticker() || true, "");
    VT_CHECK(t->getCustomSymbols() == t0->getCustomSymbols(), "custom symbols");
    VT_CHECK(r->getAllCustom() == r0->getAllCustom(), "custom radii");
    for (const char* s : sm)
    {
        for (double q : {0.0, 2.5})
        {
            double v = 0, v0 = 0;
            bool e = false, e0 = false;
            try { v = t->lookup(s, q); }  catch (const invalid_argument&) { e = true; }
            try { v0 = t0->lookup(s, q); }  catch (const invalid_argument&) { e0 = true; }
            VT_CHECK(e == e0 && v == v0, string("lookup of ") + s);
        }
        VT_CHECK(r->lookup(s) == r0->lookup(s), string("radius of ") + s);
    }
    // bond valence parameters from text
    BVParam bp("Na", 1, "Cl", -1, 1.5, 0.37, "a"), bp0 = bp;
    string line = c.oneof<const char*>({"", "Na", "Na 1 Cl -1 2.0", "Na 1 Cl -1 2.0 0.37", "Na x Cl -1 2.0 0.37 a", "K 1 Br -1 1.x 0.37 b", "K 1 Br b 2.0 0.37"});
    c.note() << "cif line [" << line << "]\n";
    VT_THROWS(bp.setFromCifLine(line), std::invalid_argument, "cif line " + line);
    VT_CHECK(bp.matom0 == bp0.matom0 && bp.mvalence0 == bp0.mvalence0 && bp.matom1 == bp0.matom1 &&
        bp.mvalence1 == bp0.mvalence1 && bp.mRo == bp0.mRo && bp.mB == bp0.mB && bp.mref_id == bp0.mref_id, "parameters have changed");
}


VT_PROP(emptystructure, "any index", 400, 4000)
{
    StructureAdapterPtr s = emptyStructureAdapter();
    if (c.flag())  s = c.flag() ? s->clone() : cloneBySerialization(s);
    int i = c.range(-3, 3);
    VT_THROWS(s->siteAtomType(i), out_of_range, "atom type");
    VT_THROWS(s->siteCartesianPosition(i), out_of_range, "position");
    VT_THROWS(s->siteMultiplicity(i), out_of_range, "multiplicity");
    VT_THROWS(s->siteOccupancy(i), out_of_range, "occupancy");
    VT_THROWS(s->siteAnisotropy(i), out_of_range, "anisotropy");
    VT_THROWS(s->siteCartesianUij(i), out_of_range, "displacements");
    VT_CHECK(s->countSites() == 0 && s->totalOccupancy() == 0 && s->numberDensity() == 0, "empty structure");
    VT_CHECK(maxUii(s) == 0 && maxUii(StructureAdapterPtr()) == 0, "maxUii");
    BaseBondGeneratorPtr g = s->createBondGenerator();
    VT_CHECK(g, "bond generator");
    boost::shared_ptr<PairQuantity> q = make(c.oneof({PDF, DEBYE, BOND, BVS, OVERLAP, COUNTER}));
    q->eval(s);
    for (double x : q->value())  VT_CHECK(x == 0, "value of an empty structure");
    q->eval(StructureAdapterPtr());
    for (double x : q->value())  VT_CHECK(x == 0, "value of a null structure");
    c.nontrivial();
}
