#include "calc.hpp"
#include <diffpy/srreal/BVParametersTable.hpp>
#include <diffpy/srreal/ConstantRadiiTable.hpp>

using namespace std;
using namespace diffpy::srreal;

namespace calc {

const char* const kindnames[] = {
    "PDFCalculator", "DebyePDFCalculator", "BondCalculator",
    "BVSCalculator", "OverlapCalculator", "PairCounter", 0};


PQPtr make(Kind k)
{
    switch (k)
    {
        case PDF:  return boost::make_shared<PDFCalculator>();
        case DEBYE:  return boost::make_shared<DebyePDFCalculator>();
        case BOND:  return boost::make_shared<BondCalculator>();
        case BVS:  return boost::make_shared<BVSCalculator>();
        case OVERLAP:  return boost::make_shared<OverlapCalculator>();
        case COUNTER:  return boost::make_shared<PairCounter>();
        default:  throw logic_error("kind");
    }
}


Kind kindOf(const PairQuantity& pq)
{
    if (dynamic_cast<const PDFCalculator*>(&pq))  return PDF;
    if (dynamic_cast<const DebyePDFCalculator*>(&pq))  return DEBYE;
    if (dynamic_cast<const BondCalculator*>(&pq))  return BOND;
    if (dynamic_cast<const BVSCalculator*>(&pq))  return BVS;
    if (dynamic_cast<const OverlapCalculator*>(&pq))  return OVERLAP;
    return COUNTER;
}


bool supportsOptimized(Kind k)
{
    return k == PDF || k == DEBYE || k == BOND;
}


static vector<double> one(double x) { return vector<double>(1, x); }


Results results(const PairQuantity& pq, bool lite)
{
    Results rv;
    Kind k = kindOf(pq);
    if (k == PDF)
    {
        const PDFCalculator& c = dynamic_cast<const PDFCalculator&>(pq);
        rv.arr["pdf"] = c.getPDF();
        rv.arr["rdf"] = c.getRDF();
        rv.arr["rdfperr"] = c.getRDFperR();
        rv.arr["f"] = c.getF();
        rv.arr["extpdf"] = c.getExtendedPDF();
        rv.arr["extrdf"] = c.getExtendedRDF();
        rv.arr["extrdfperr"] = c.getExtendedRDFperR();
        rv.arr["extrgrid"] = c.getExtendedRgrid();
        rv.arr["rgrid"] = c.getRgrid();
        rv.arr["qgrid"] = c.getQgrid();
        rv.arr["qstep"] = one(c.getQstep());
        rv.arr["extendedrmin"] = one(c.getExtendedRmin());
        rv.arr["extendedrmax"] = one(c.getExtendedRmax());
        rv.txt["sizes"] = vt::str(c.getPDF().size() == c.getRgrid().size() &&
            c.getRDF().size() == c.getRgrid().size() &&
            c.getRDFperR().size() == c.getRgrid().size() &&
            c.getF().size() == c.getQgrid().size());
        if (rv.txt["sizes"] != "1")  vt::fail("PDF result and grid sizes differ");
        return rv;
    }
    if (k == DEBYE)
    {
        const DebyePDFCalculator& c = dynamic_cast<const DebyePDFCalculator&>(pq);
        rv.arr["f"] = c.getF();
        rv.arr["pdf"] = c.getPDF();
        rv.arr["rdf"] = c.getRDF();
        rv.arr["rdfperr"] = c.getRDFperR();
        rv.arr["rgrid"] = c.getRgrid();
        rv.arr["qgrid"] = c.getQgrid();
        rv.arr["qstep"] = one(c.getQstep());
        rv.arr["extendedrmin"] = one(c.getDoubleAttr("extendedrmin"));
        rv.arr["extendedrmax"] = one(c.getDoubleAttr("extendedrmax"));
        if (c.getPDF().size() != c.getRgrid().size() ||
            c.getF().size() != c.getQgrid().size())
            vt::fail("Debye PDF result and grid sizes differ");
        return rv;
    }
    if (k == BOND)
    {
        const BondCalculator& c = dynamic_cast<const BondCalculator&>(pq);
        vector<double> d = c.distances();
        vector<R3::Vector> dir = c.directions();
        SiteIndices s0 = c.sites0(), s1 = c.sites1();
        vector<string> t0 = c.types0(), t1 = c.types1();
        size_t n = d.size();
        if (dir.size() != n || s0.size() != n || s1.size() != n ||
                t0.size() != n || t1.size() != n || c.value().size() != n)
            vt::fail("BondCalculator results have different sizes");
        rv.hasbonds = true;
        set<string> tt;
        for (size_t i = 0; i < n; ++i)
        {
            ref::Bond b;
            b.i0 = s0[i]; b.i1 = s1[i]; b.d = d[i];
            b.r01 = ref::fromR3(dir[i]); b.msd = 0;
            rv.bonds.push_back(b);
            tt.insert(vt::str(s0[i]) + ":" + t0[i]);
            tt.insert(vt::str(s1[i]) + ":" + t1[i]);
            if (c.value()[i] != d[i])  vt::fail("BondCalculator value() is not distances()");
            if (i)
            {
                bool sorted = d[i-1] < d[i] || (d[i-1] == d[i] &&
                    (s0[i-1] < s0[i] || (s0[i-1] == s0[i] && s1[i-1] <= s1[i])));
                if (!sorted)  vt::fail("BondCalculator results are not sorted at " + vt::str(i));
            }
        }
        rv.bondtypes.assign(tt.begin(), tt.end());
        return rv;
    }
    if (k == BVS)
    {
        const BVSCalculator& c = dynamic_cast<const BVSCalculator&>(pq);
        rv.arr["value"] = c.value();
        rv.arr["valences"] = c.valences();
        rv.arr["bvdiff"] = c.bvdiff();
        rv.arr["bvmsdiff"] = one(c.bvmsdiff());
        rv.arr["bvrmsdiff"] = one(c.bvrmsdiff());
        rv.arr["rmaxused"] = one(c.getRmaxUsed());
        return rv;
    }
    if (k == OVERLAP)
    {
        const OverlapCalculator& c = dynamic_cast<const OverlapCalculator&>(pq);
        vector<double> d = c.distances(), ol = c.overlaps();
        vector<R3::Vector> dir = c.directions();
        SiteIndices s0 = c.sites0(), s1 = c.sites1();
        vector<string> t0 = c.types0(), t1 = c.types1();
        size_t n = d.size();
        if (dir.size() != n || s0.size() != n || s1.size() != n ||
                t0.size() != n || t1.size() != n || ol.size() != n)
            vt::fail("OverlapCalculator results have different sizes");
        rv.hasbonds = true;
        set<string> tt;
        for (size_t i = 0; i < n; ++i)
        {
            ref::Bond b;
            b.i0 = s0[i]; b.i1 = s1[i]; b.d = d[i];
            b.r01 = ref::fromR3(dir[i]); b.msd = ol[i];
            rv.bonds.push_back(b);
            tt.insert(vt::str(s0[i]) + ":" + t0[i]);
            tt.insert(vt::str(s1[i]) + ":" + t1[i]);
        }
        rv.bondtypes.assign(tt.begin(), tt.end());
        rv.arr["sitesq"] = c.siteSquareOverlaps();
        rv.arr["totalsq"] = one(c.totalSquareOverlap());
        rv.arr["meansq"] = one(c.meanSquareOverlap());
        rv.arr["coordinations"] = c.coordinations();
        rv.arr["rmaxused"] = one(c.getRmaxUsed());
        if (lite)  return rv;
        int ns = c.coordinations().size();
        vector<double> g, fl;
        for (const R3::Vector& v : c.gradients())
            for (int i = 0; i < 3; ++i)  g.push_back(v[i]);
        rv.arr["gradients"] = g;
        ostringstream nb;
        vector<double> cbt;
        for (int i = 0; i < ns; ++i)
        {
            for (int j = 0; j < ns; ++j)
            {
                fl.push_back(c.flipDiffTotal(i, j));
                fl.push_back(c.flipDiffMean(i, j));
            }
            unordered_set<int> nbs = c.getNeighborSites(i);
            nb << i << ": " << vt::strv(set<int>(nbs.begin(), nbs.end())) << "; ";
            unordered_map<string,double> ct = c.coordinationByTypes(i);
            map<string,double> cts(ct.begin(), ct.end());
            nb << "types";
            for (auto& kv : cts)
            {
                nb << ' ' << kv.first;
                cbt.push_back(kv.second);
            }
            nb << "; ";
        }
        rv.arr["flips"] = fl;
        rv.arr["coordinationsbytype"] = cbt;
        rv.txt["neighbors"] = nb.str();
        set<string> hoods;
        for (const unordered_set<int>& h : c.neighborhoods())
            hoods.insert(vt::strv(set<int>(h.begin(), h.end())));
        rv.txt["neighborhoods"] = vt::strv(hoods);
        return rv;
    }
    rv.arr["value"] = pq.value();
    return rv;
}


void compareResults(const string& what, const Results& a, const Results& b,
        double rtol, double atol, Scales* hist)
{
    auto ia = a.arr.begin(), ib = b.arr.begin();
    for (; ia != a.arr.end() && ib != b.arr.end(); ++ia, ++ib)
    {
        if (ia->first != ib->first)  vt::fail(what + ": different result names");
        double mx = 0;
        for (double x : ib->second)  if (std::isfinite(x))  mx = max(mx, fabs(x));
        double at = atol;
        if (hist)
        {
            double& h = hist->mx[ia->first];
            h = max(h, mx);
            at += rtol * h;
        }
        vt::checkCloseSeq(what + " " + ia->first, ia->second, ib->second, rtol, at);
        for (double x : ia->second)  if (std::isnan(x))  vt::fail(what + " " + ia->first + " has NaN");
    }
    if (a.arr.size() != b.arr.size())  vt::fail(what + ": different results");
    if (a.txt != b.txt)
    {
        string s = what + ": different text results";
        for (auto& kv : a.txt)
            if (!b.txt.count(kv.first) || b.txt.at(kv.first) != kv.second)
                s += " " + kv.first + " [" + kv.second + "] vs [" +
                    (b.txt.count(kv.first) ? b.txt.at(kv.first) : string("none")) + "]";
        vt::fail(s);
    }
    if (a.hasbonds != b.hasbonds)  vt::fail(what + ": bonds");
    if (a.hasbonds)
    {
        ref::compareBonds(what, a.bonds, b.bonds, true, 1e-7);
        if (a.bondtypes != b.bondtypes)
            vt::fail(what + ": different bond types " + vt::strv(a.bondtypes) + " vs " + vt::strv(b.bondtypes));
    }
}


map<string, string> configOf(const PairQuantity& pq, int nsites,
        const vector<string>& types)
{
    map<string, string> rv;
    for (const string& n : pq.namesOfDoubleAttributes())
        rv["attr " + n] = vt::str(pq.getDoubleAttr(n));
    rv["writable"] = vt::strv(pq.namesOfWritableDoubleAttributes());
    rv["evaluator"] = vt::str(int(pq.getEvaluatorType()));
    ostringstream m;
    for (int i = 0; i < nsites; ++i)
        for (int j = 0; j < nsites; ++j)  m << pq.getPairMask(i, j);
    rv["pairmask"] = m.str();
    m.str("");
    for (const string& a : types)
        for (const string& b : types)  m << pq.getTypeMask(a, b);
    rv["typemask"] = m.str();
    const ScatteringFactorTableOwner* so =
        dynamic_cast<const ScatteringFactorTableOwner*>(&pq);
    if (so)
    {
        const ScatteringFactorTable& tb = *so->getScatteringFactorTable();
        rv["sftable"] = tb.type() + " " + so->getRadiationType();
        unordered_set<string> cs = tb.getCustomSymbols();
        ostringstream o;
        for (const string& s : set<string>(cs.begin(), cs.end()))
        {
            o << s << ":" << vt::str(tb.lookup(s)) << "," << vt::str(tb.lookup(s, 3.5)) << " ";
        }
        rv["sfcustom"] = o.str();
    }
    const PeakWidthModelOwner* po = dynamic_cast<const PeakWidthModelOwner*>(&pq);
    if (po)  rv["pwm"] = po->getPeakWidthModel()->type();
    const PDFEnvelopeOwner* eo = dynamic_cast<const PDFEnvelopeOwner*>(&pq);
    if (eo)  rv["envelopes"] = vt::strv(eo->usedEnvelopeTypes());
    Kind k = kindOf(pq);
    if (k == PDF)
    {
        const PDFCalculator& c = dynamic_cast<const PDFCalculator&>(pq);
        rv["profile"] = c.getPeakProfile()->type();
        rv["baseline"] = c.getBaseline()->type();
        rv["precision"] = vt::str(c.getPeakProfile()->getPrecision());
    }
    if (k == DEBYE)
    {
        const DebyePDFCalculator& c = dynamic_cast<const DebyePDFCalculator&>(pq);
        rv["optimumqstep"] = vt::str(c.isOptimumQstep());
    }
    if (k == BVS)
    {
        const BVSCalculator& c = dynamic_cast<const BVSCalculator&>(pq);
        set<string> s;
        for (const BVParam& bp : c.getBVParamTable()->getAllCustom())
        {
            ostringstream o;
            o << bp.matom0 << bp.mvalence0 << bp.matom1 << bp.mvalence1 << " " <<
                setprecision(17) << bp.mRo << " " << bp.mB << " " << bp.mref_id;
            s.insert(o.str());
        }
        rv["bvcustom"] = vt::strv(s);
        ostringstream o;
        for (const string& t : types)  o << c.getBVParamTable()->getAtomValence(t) << " ";
        rv["atomvalences"] = o.str();
    }
    if (k == OVERLAP)
    {
        const OverlapCalculator& c = dynamic_cast<const OverlapCalculator&>(pq);
        rv["radiitable"] = c.getAtomRadiiTable()->type();
        ostringstream o;
        for (const string& t : types)  o << vt::str(c.getAtomRadiiTable()->lookup(t)) << " ";
        auto cu = c.getAtomRadiiTable()->getAllCustom();
        for (auto& kv : map<string,double>(cu.begin(), cu.end()))
            o << kv.first << "=" << vt::str(kv.second) << " ";
        rv["radii"] = o.str();
    }
    return rv;
}


void compareConfig(const string& what, const map<string, string>& a,
        const map<string, string>& b, double attrtol)
{
    for (auto& kv : a)
    {
        auto ib = b.find(kv.first);
        if (ib == b.end())  vt::fail(what + ": missing configuration " + kv.first);
        if (kv.first.compare(0, 5, "attr ") == 0 && vt::close(atof(kv.second.c_str()),
                    atof(ib->second.c_str()), attrtol, attrtol))  continue;
        if (ib->second != kv.second)
            vt::fail(what + ": configuration " + kv.first + " differs: [" + kv.second + "] vs [" + ib->second + "]");
    }
    for (auto& kv : b)
        if (!a.count(kv.first))  vt::fail(what + ": extra configuration " + kv.first);
}


// Configuration ---------------------------------------------------------------

static PDFCalculator* aspdf(PairQuantity& q) { return dynamic_cast<PDFCalculator*>(&q); }
static DebyePDFCalculator* asdebye(PairQuantity& q) { return dynamic_cast<DebyePDFCalculator*>(&q); }
static PeakWidthModelOwner* aspwm(PairQuantity& q) { return dynamic_cast<PeakWidthModelOwner*>(&q); }
static ScatteringFactorTableOwner* assft(PairQuantity& q) { return dynamic_cast<ScatteringFactorTableOwner*>(&q); }
static PDFEnvelopeOwner* asenv(PairQuantity& q) { return dynamic_cast<PDFEnvelopeOwner*>(&q); }

typedef function<void(PairQuantity&)> Fn;

static Op mk(const string& d, Fn f)
{
    Op o;
    o.desc = d;
    o.fn = f;
    return o;
}


template <class T> static string D(const string& s, const T& v)
{ return s + " " + vt::str(v); }


// Limits and steps are chosen so that multiples of rstep and the limits do not
// coincide with pair distances of generated structures.  Whether a pair exactly
// at a limit is included depends on roundoff.

Op initialConfig(Case& c, Kind k, const CfgOpts& o)
{
    double rmin = c.oneof({0.0, 0.5007319, 1.0007319, 2.0007319});
    double rmax = c.oneof({3.0007319, 4.0007319, 5.0007319, min(6.0007319, o.rmaxhi)});
    if (k == PDF)
    {
        double rstep = c.oneof({0.1003171, 0.0501293, 0.0701937, 0.2011379});
        double qmax = c.oneof({0.0, 20.0, 12.5});
        double mext = c.oneof({3.0, 1.0, 0.0, 10.0});
        double prec = o.minprec > 0 ? o.minprec : 1e-9;
        return mk("rmin " + vt::str(rmin) + " rmax " + vt::str(rmax) + " rstep " +
                vt::str(rstep) + " qmax " + vt::str(qmax) + " maxextension " +
                vt::str(mext) + " peakprecision " + vt::str(prec),
            [=](PairQuantity& q) {
                PDFCalculator& p = *aspdf(q);
                p.setRmin(rmin); p.setRmax(rmax); p.setRstep(rstep);
                p.setQmax(qmax); p.setMaxExtension(mext);
                p.getPeakProfile()->setPrecision(prec);
            });
    }
    if (k == DEBYE)
    {
        double rstep = c.oneof({0.1003171, 0.0501293, 0.2011379});
        double qmax = c.oneof({8.0, 12.0, 5.5, 30.0});
        double mext = c.oneof({2.0, 1.0, 0.0, 10.0});
        double dprec = o.mindebyeprec >= 0 ? o.mindebyeprec : c.oneof({1e-6, 1e-9});
        return mk("rmin " + vt::str(rmin) + " rmax " + vt::str(rmax) + " rstep " +
                vt::str(rstep) + " qmax " + vt::str(qmax) + " maxextension " +
                vt::str(mext) + " debyeprecision " + vt::str(dprec),
            [=](PairQuantity& q) {
                DebyePDFCalculator& p = *asdebye(q);
                p.setRmin(rmin); p.setRmax(rmax); p.setRstep(rstep);
                p.setQmax(qmax); p.setMaxExtension(mext);
                p.setDebyePrecision(dprec);
            });
    }
    if (k == OVERLAP)
    {
        double rad = c.oneof({1.2031, 0.9017, 1.7023, 0.0});
        return mk(D("rmin", rmin) + D(" rmax", rmax) + D(" radius", rad),
            [=](PairQuantity& q) {
                q.setRmin(rmin); q.setRmax(rmax);
                boost::dynamic_pointer_cast<ConstantRadiiTable>(
                    dynamic_cast<OverlapCalculator&>(q).getAtomRadiiTable())->setDefault(rad);
            });
    }
    return mk(D("rmin", rmin) + D(" rmax", rmax),
            [=](PairQuantity& q) { q.setRmin(rmin); q.setRmax(rmax); });
}


Op genMaskOp(Case& c, const CfgOpts& o)
{
    int n = max(1, o.nsites);
    vector<string> tp = o.types;
    if (tp.empty())  tp = typePool(GenOpts());
    vector<int> ops;
    ops.push_back(0);
    if (o.pairmasks)  { ops.push_back(1); ops.push_back(1); }
    if (o.typemasks)  { ops.push_back(2); ops.push_back(2); }
    if (o.conflictmasks)
    {
        if (o.typemasks)  ops.push_back(4);
        if (o.siteall >= 0 && o.pairmasks)  { ops.push_back(3); ops.push_back(3); }
        if (o.siteall < 0)  ops.push_back(5);
    }
    int op = c.pick(ops);
    bool m = c.flag();
    switch (op)
    {
        case 0:
            return mk(D("maskAllPairs", m), [=](PairQuantity& q) { q.maskAllPairs(m); });
        case 1:
        {
            int i = c.below(n + 1), j = c.below(n + 1);
            return mk("setPairMask " + vt::str(i) + " " + vt::str(j) + D("", m),
                    [=](PairQuantity& q) { q.setPairMask(i, j, m); });
        }
        case 2:
        {
            string a = c.pick(tp), b = c.pick(tp);
            // frequent repetition of the same types makes masks collide
            if (c.flag())  a = tp[0];
            if (c.flag())  b = tp[tp.size() > 1 ? 1 : 0];
            return mk("setTypeMask " + a + " " + b + D("", m),
                    [=](PairQuantity& q) { q.setTypeMask(a, b, m); });
        }
        case 3:
        {
            int i = c.below(n + 1);
            bool first = c.flag();
            m = o.siteall;
            return mk("setPairMask " + vt::str(i) + " all " + D("", m),
                    [=](PairQuantity& q) { first ? q.setPairMask(i, -1, m) : q.setPairMask(-1, i, m); });
        }
        case 4:
        {
            string a = c.pick(tp);
            if (c.flag())  a = tp[0];
            bool first = c.flag();
            return mk("setTypeMask all " + a + D("", m),
                    [=](PairQuantity& q) { first ? q.setTypeMask("all", a, m) : q.setTypeMask(a, "ALL", m); });
        }
        default:
            return mk("invertMask", [=](PairQuantity& q) { q.invertMask(); });
    }
}


static Op rangeOp(Case& c, Kind k, const CfgOpts& o)
{
    if (k == PDF || k == DEBYE)
    {
        switch (c.below(k == DEBYE ? 9 : 6))
        {
            case 0: { double v = c.oneof({0.0, 0.5007319, 1.1007319, 2.0007319, 2.0507319});
                return mk(D("setRmin", v), [=](PairQuantity& q) { q.setRmin(v); }); }
            case 1: { double v = c.oneof({3.0007319, 4.0007319, 4.0507319, 5.0007319, min(6.5007319, o.rmaxhi), 2.1007319});
                return mk(D("setRmax", v), [=](PairQuantity& q) { q.setRmax(v); }); }
            case 2: { // 0.1003211 and 0.0501303 give the same number of grid points as the
                // initial steps, so nothing but the changed step shows the change
                double v = c.oneof({0.1003171, 0.0501293, 0.0701937, 0.2011379, 0.1003211, 0.0501303});
                return mk(D("setRstep", v), [=](PairQuantity& q) {
                    if (aspdf(q))  aspdf(q)->setRstep(v);  else  asdebye(q)->setRstep(v); }); }
            case 3: { double v = c.oneof({0.0, 0.5, 1.5, 4.0});
                return mk(D("setQmin", v), [=](PairQuantity& q) {
                    if (aspdf(q))  aspdf(q)->setQmin(v);  else  asdebye(q)->setQmin(v); }); }
            case 4:
                if (k == PDF)
                {
                    double v = c.oneof({0.0, 30.0, 20.0, 12.5, 8.0});
                    return mk(D("setQmax", v), [=](PairQuantity& q) { aspdf(q)->setQmax(v); });
                }
                else
                {
                    double v = c.oneof({8.0, 12.0, 5.5, 25.0});
                    return mk(D("setQmax", v), [=](PairQuantity& q) { asdebye(q)->setQmax(v); });
                }
            case 5: { double v = c.oneof({3.0, 1.0, 0.0, 2.5, 10.0});
                return mk(D("setMaxExtension", v), [=](PairQuantity& q) {
                    if (aspdf(q))  aspdf(q)->setMaxExtension(v);  else  asdebye(q)->setMaxExtension(v); }); }
            case 6: { double v = c.oneof({0.3, 0.15, 0.5, 1.0, 2.5});
                return mk(D("setQstep", v), [=](PairQuantity& q) { asdebye(q)->setQstep(v); }); }
            case 7:
                return mk("setOptimumQstep", [=](PairQuantity& q) { asdebye(q)->setOptimumQstep(); });
            default: { double v = o.mindebyeprec >= 0 ? c.oneof({1.0, 2.0, 3.0}) * o.mindebyeprec : c.oneof({1e-6, 1e-3, 1e-9, 0.1});
                return mk(D("setDebyePrecision", v), [=](PairQuantity& q) { asdebye(q)->setDebyePrecision(v); }); }
        }
    }
    if (k == BVS && c.flag())
    {
        double v = c.oneof({1e-5, 1e-3, 0.01, 0.1});
        return mk(D("setValencePrecision", v), [=](PairQuantity& q) {
            dynamic_cast<BVSCalculator&>(q).setValencePrecision(v); });
    }
    if (c.flag())
    {
        double v = c.oneof({0.0, 0.5007319, 1.1007319, 2.0007319, 2.7007319});
        return mk(D("setRmin", v), [=](PairQuantity& q) { q.setRmin(v); });
    }
    double v = c.oneof({3.0007319, 4.0007319, 2.2007319, 5.0007319, min(6.0007319, o.rmaxhi)});
    return mk(D("setRmax", v), [=](PairQuantity& q) { q.setRmax(v); });
}


static Op componentOp(Case& c, Kind k, const CfgOpts& o)
{
    int op = c.below(k == PDF ? 10 : 6);
    // width models
    if (op == 0)
    {
        string tp = c.oneof<const char*>({"jeong", "debye-waller", "constant"});
        double w = c.oneof({0.1, 0.2, 0.35, 0.05});
        return mk("setPeakWidthModelByType " + tp + D("", w), [=](PairQuantity& q) {
            aspwm(q)->setPeakWidthModelByType(tp);
            if (tp == "constant")  q.setDoubleAttr("width", w);
        });
    }
    if (op == 1 && o.inplace)
    {
        string nm = c.oneof<const char*>({"delta1", "delta2", "qbroad", "qbroad_seperable", "width", "bisowidth", "uisowidth"});
        double v = c.oneof({0.0, 0.05, 0.2, 0.5, 1.5});
        if (nm == "width" || nm == "bisowidth")  v = v + 0.05;
        if (nm == "uisowidth")  v = 0.002 + v / 100;
        if (nm == "qbroad_seperable")  v = v / 10;
        if (nm == "qbroad")  v = v / 5;
        return mk("attribute " + nm + D("", v), [=](PairQuantity& q) {
            if (q.hasDoubleAttr(nm))  q.setDoubleAttr(nm, v); });
    }
    if (op == 2)
    {
        string tp = c.oneof<const char*>({"jeong", "debye-waller"});
        double d2 = c.oneof({0.0, 0.5, 1.0});
        return mk("setPeakWidthModel new " + tp + D("", d2), [=](PairQuantity& q) {
            PeakWidthModelPtr p = PeakWidthModel::createByType(tp);
            if (p->hasDoubleAttr("delta2"))  p->setDoubleAttr("delta2", d2);
            aspwm(q)->setPeakWidthModel(p);
        });
    }
    // envelopes
    if (op == 3)
    {
        string tp = c.oneof<const char*>({"scale", "qresolution", "sphericalshape", "stepcut"});
        bool pop = c.flag();
        return mk(string(pop ? "pop" : "add") + "EnvelopeByType " + tp, [=](PairQuantity& q) {
            if (pop)  asenv(q)->popEnvelopeByType(tp);
            else  asenv(q)->addEnvelopeByType(tp);
        });
    }
    if (op == 4 || op == 1)
    {
        string nm = c.oneof<const char*>({"scale", "qdamp", "spdiameter", "stepcut"});
        double v = c.oneof({0.5, 2.0, 3.3, 10.0});
        if (nm == "qdamp")  v = v / 20;
        if (nm == "scale")  v = c.oneof({0.5, 2.0, -1.0, 0.0});
        if (nm == "spdiameter")  v += 3;
        return mk("envelope " + nm + D("", v), [=](PairQuantity& q) {
            if (q.hasDoubleAttr(nm))  q.setDoubleAttr(nm, v); });
    }
    if (op == 5)
    {
        if (c.chance(1, 6))
            return mk("clearEnvelopes", [=](PairQuantity& q) { asenv(q)->clearEnvelopes(); });
        double v = c.oneof({0.5, 1.5});
        return mk(D("addEnvelope new scale", v), [=](PairQuantity& q) {
            PDFEnvelopePtr e = PDFEnvelope::createByType("scale");
            e->setDoubleAttr("scale", v);
            asenv(q)->addEnvelope(e);
        });
    }
    if (op == 6)
    {
        string tp = c.oneof<const char*>({"gaussian", "croppedgaussian"});
        return mk("setPeakProfileByType " + tp, [=](PairQuantity& q) { aspdf(q)->setPeakProfileByType(tp); });
    }
    if (op == 7)
    {
        double v = o.minprec > 0 ? o.minprec : c.oneof({1e-9, 1e-11, 1e-8});
        if (c.flag() && o.inplace)
            return mk(D("profile precision", v), [=](PairQuantity& q) { aspdf(q)->getPeakProfile()->setPrecision(v); });
        string tp = c.oneof<const char*>({"gaussian", "croppedgaussian"});
        return mk("setPeakProfile new " + tp + D("", v), [=](PairQuantity& q) {
            PeakProfilePtr p = PeakProfile::createByType(tp);
            p->setPrecision(v);
            aspdf(q)->setPeakProfile(p);
        });
    }
    if (op == 8)
    {
        string tp = c.oneof<const char*>({"linear", "zero"});
        return mk("setBaselineByType " + tp, [=](PairQuantity& q) { aspdf(q)->setBaselineByType(tp); });
    }
    string tp = c.oneof<const char*>({"linear", "zero"});
    return mk("setBaseline new " + tp, [=](PairQuantity& q) {
        PDFBaselinePtr b = PDFBaseline::createByType(tp);
        aspdf(q)->setBaseline(b);
    });
}


static Op tableOp(Case& c, Kind k, const CfgOpts& o)
{
    vector<string> tp = o.types;
    if (tp.empty())  tp = typePool(GenOpts());
    string a = c.pick(tp), b = c.pick(tp);
    if (k == PDF || k == DEBYE)
    {
        switch (c.below(o.inplace ? 6 : 2))
        {
            case 0: { string t = c.oneof<const char*>({"xray", "neutron", "electronnumber", "X", "N"});
                return mk("setScatteringFactorTableByType " + t, [=](PairQuantity& q) { assft(q)->setScatteringFactorTableByType(t); }); }
            case 1: { string t = c.oneof<const char*>({"xray", "neutron"}); double v = c.oneof({2.0, 7.5});
                return mk("setScatteringFactorTable new " + t + " " + a + D("=", v), [=](PairQuantity& q) {
                    ScatteringFactorTablePtr p = ScatteringFactorTable::createByType(t);
                    p->setCustomAs(a, a, v);
                    assft(q)->setScatteringFactorTable(p); }); }
            case 2: { double v = c.oneof({2.0, 7.5, 0.5, 12.0});
                return mk("setCustomAs " + a + " " + b + D("", v), [=](PairQuantity& q) {
                    assft(q)->getScatteringFactorTable()->setCustomAs(a, b, v); }); }
            case 3:
                return mk("setCustomAs " + a + " " + b, [=](PairQuantity& q) {
                    assft(q)->getScatteringFactorTable()->setCustomAs(a, b); });
            case 4:
                return mk("resetCustom " + a, [=](PairQuantity& q) {
                    assft(q)->getScatteringFactorTable()->resetCustom(a); });
            default:
                return mk("sftable resetAll", [=](PairQuantity& q) {
                    assft(q)->getScatteringFactorTable()->resetAll(); });
        }
    }
    if (k == BVS)
    {
        switch (c.below(6))
        {
            case 0:
            case 1: { int v0 = c.oneof({2, 1, -2, -1, 4}); int v1 = c.oneof({-2, -1, 2});
                double ro = c.oneof({1.6, 2.0, 1.2}); double bb = c.oneof({0.37, 0.3});
                string a0 = c.oneof<const char*>({"Na", "O", "Ti", "Cl", "C"}), a1 = c.oneof<const char*>({"O", "Cl", "C"});
                return mk("bv setCustom " + a0 + D("", v0) + " " + a1 + D("", v1) + D("", ro), [=](PairQuantity& q) {
                    dynamic_cast<BVSCalculator&>(q).getBVParamTable()->setCustom(a0, v0, a1, v1, ro, bb); }); }
            case 2: { int v = c.oneof({2, -2, 0, 1});
                return mk("setAtomValence " + a + D("", v), [=](PairQuantity& q) {
                    dynamic_cast<BVSCalculator&>(q).getBVParamTable()->setAtomValence(a, v); }); }
            case 3:
                return mk("bv resetAll", [=](PairQuantity& q) {
                    dynamic_cast<BVSCalculator&>(q).getBVParamTable()->resetAll(); });
            case 4:
                return mk("resetAtomValences", [=](PairQuantity& q) {
                    dynamic_cast<BVSCalculator&>(q).getBVParamTable()->resetAtomValences(); });
            default: { int v = c.oneof({2, -1});
                return mk("setBVParamTable new with valence " + a + D("", v), [=](PairQuantity& q) {
                    BVParametersTablePtr t(new BVParametersTable);
                    t->setAtomValence(a, v);
                    dynamic_cast<BVSCalculator&>(q).setBVParamTable(t); }); }
        }
    }
    if (k == OVERLAP)
    {
        double v = c.oneof({1.0041, 0.5053, 1.4073, 0.0, 1.9097});
        switch (c.below(6))
        {
            case 0:
            case 1:
            case 2:
                return mk("setCustom radius " + a + D("", v), [=](PairQuantity& q) {
                    dynamic_cast<OverlapCalculator&>(q).getAtomRadiiTable()->setCustom(a, v); });
            case 3:
                return mk("resetCustom radius " + a, [=](PairQuantity& q) {
                    dynamic_cast<OverlapCalculator&>(q).getAtomRadiiTable()->resetCustom(a); });
            case 4:
                return mk("radii resetAll", [=](PairQuantity& q) {
                    dynamic_cast<OverlapCalculator&>(q).getAtomRadiiTable()->resetAll(); });
            default:
                return mk("setAtomRadiiTableByType constant " + a + D("", v), [=](PairQuantity& q) {
                    OverlapCalculator& oc = dynamic_cast<OverlapCalculator&>(q);
                    oc.setAtomRadiiTableByType("constant");
                    oc.getAtomRadiiTable()->setCustom(a, v); });
        }
    }
    return genMaskOp(c, o);
}


Op genConfigOp(Case& c, Kind k, const CfgOpts& o)
{
    for (;;)
    {
        switch (c.below(5))
        {
            case 0:
                if (!o.ranges)  break;
                return rangeOp(c, k, o);
            case 1:
                if (!o.components || (k != PDF && k != DEBYE))  break;
                return componentOp(c, k, o);
            case 2:
                if (!o.masks)  break;
                return genMaskOp(c, o);
            case 3:
                if (!o.tables || (k == BOND || k == COUNTER))  break;
                return tableOp(c, k, o);
            default:
                if (k == BOND && o.cones)
                {
                    if (c.chance(1, 3))
                        return mk("filterOff", [](PairQuantity& q) { dynamic_cast<BondCalculator&>(q).filterOff(); });
                    ref::V3 ax = genUnitVector(c);
                    double deg = c.oneof({30.7, 61.3, 90.5, 180.0, 10.3, 5.2});
                    R3::Vector rax = 1.7 * ref::toR3(ax);
                    return mk("filterCone " + ref::str(ax) + D("", deg), [=](PairQuantity& q) {
                        dynamic_cast<BondCalculator&>(q).filterCone(rax, deg); });
                }
                if (o.ranges)  return rangeOp(c, k, o);
                break;
        }
        if (!o.ranges && !o.masks && (!o.components || (k != PDF && k != DEBYE)) &&
                (!o.tables || k == BOND || k == COUNTER))
            return mk("nothing", [](PairQuantity&) { });
    }
}


bool editInPlace(StructureAdapterPtr stru, const ref::Model& m, bool lazy)
{
    AtomicStructureAdapterPtr a = boost::dynamic_pointer_cast<AtomicStructureAdapter>(stru);
    if (!a)  return false;
    PeriodicStructureAdapterPtr p = boost::dynamic_pointer_cast<PeriodicStructureAdapter>(stru);
    CrystalStructureAdapterPtr x = boost::dynamic_pointer_cast<CrystalStructureAdapter>(stru);
    ref::Kind k = x ? ref::CRYSTAL : p ? ref::PERIODIC : ref::MOLECULE;
    if (k != m.kind)  return false;
    // Equivalent positions of edited atoms follow in the next bond generator,
    // as long as there is the same number of them.  All other edits of crystals
    // need a call of updateSymmetryPositions.
    lazy = lazy && x && x->countSites() == int(m.sites.size()) &&
        x->countSymOps() == int(m.ops.size());
    if (lazy)
    {
        const Lattice L(m.par[0], m.par[1], m.par[2], m.par[3], m.par[4], m.par[5]);
        lazy = (L == x->getLattice());
        for (int i = 0; lazy && i < x->countSymOps(); ++i)
        {
            const SymOpRotTrans& op = x->getSymOp(i);
            lazy = (op.R == ref::toR3(m.ops[i].R)) && (op.t == ref::toR3(m.ops[i].t));
        }
        const vector<int> mu = ref::multiplicities(m);
        for (int i = 0; lazy && i < x->countSites(); ++i)
            lazy = (x->siteMultiplicity(i) == mu[i]);
    }
    if (lazy)
    {
        for (int i = 0; i < a->countSites(); ++i)
        {
            Atom na = ref::toAtom(m.sites[i]);
            if (!((*a)[i] == na))  (*a)[i] = na;
        }
        return true;
    }
    if (p)  p->setLatPar(m.par[0], m.par[1], m.par[2], m.par[3], m.par[4], m.par[5]);
    if (x)
    {
        x->clearSymOps();
        for (const ref::Op& op : m.ops)  x->addSymOp(ref::toR3(op.R), ref::toR3(op.t));
    }
    // shrink or grow, then overwrite only what differs
    while (a->countSites() > int(m.sites.size()))  a->erase(a->countSites() - 1);
    for (int i = 0; i < a->countSites(); ++i)
    {
        Atom na = ref::toAtom(m.sites[i]);
        if (!((*a)[i] == na))  (*a)[i] = na;
    }
    while (a->countSites() < int(m.sites.size()))  a->append(ref::toAtom(m.sites[a->countSites()]));
    if (x)  x->updateSymmetryPositions();
    return true;
}


GenOpts structureOpts(Kind k)
{
    GenOpts o;
    o.maxsites = 6;
    o.maxcell = 24;
    o.cellmin = 3.0;
    o.cellmax = 6.0;
    o.allowcoincident = false;
    o.mindist = 0.4;
    if (k == BVS)  o.types = {"Na1+", "Cl1-", "O2-", "Ti4+", "C"};
    return o;
}

}   // namespace calc
