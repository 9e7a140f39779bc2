// C28 User-defined calculators, structures and components
//
// The classes of the library are extended here in the way a user would do it.
// Calculators record every pair contribution they get with exact weights, so
// that a lost, doubled or misplaced contribution is visible by itself.
#include "pdfref.hpp"
#include <diffpy/srreal/AtomRadiiTable.hpp>
#include <diffpy/srreal/ConstantRadiiTable.hpp>
#include <diffpy/srreal/PQEvaluator.hpp>
#include <diffpy/srreal/StructureDifference.hpp>

using namespace std;
using namespace calc;
using namespace diffpy::srreal;

namespace {

// recording calculator -------------------------------------------------------

typedef map<string, vector<pair<double, double> > > Store;     // key: (distance, weight)
enum { NBINS = 13 };

int binOf(const string& key)
{
    unsigned h = 5;
    for (char ch : key)  h = h * 31 + (unsigned char)(ch);
    return h % NBINS;
}

class Recorder : public PairQuantity
{
    public:

        Recorder(bool fullsum, bool persite) : mfull(fullsum), msite(persite)
        {
            mevaluator->setFlag(USEFULLSUM, fullsum);
            mevaluator->setFlag(FIXEDSITEINDEX, persite);
            this->resizeValue(NBINS);
            this->resetValue();
        }

        static string key(bool full, bool site, const vector<string>& types, int i0, int i1)
        {
            ostringstream o;
            if (site)
            {
                if (!full && i0 > i1)  swap(i0, i1);
                o << i0 << " " << i1;
            }
            else
            {
                string t0 = types.at(i0), t1 = types.at(i1);
                if (!full && t0 > t1)  swap(t0, t1);
                o << t0 << " " << t1;
            }
            return o.str();
        }

        Store store;
        int nfinished = 0;
        bool nostash = false;

    protected:

        // data of the assigned structure are stored, because the structure
        // itself may be edited before its contributions are removed
        virtual void resetValue()
        {
            mtypes.clear();
            for (int i = 0; i < this->countSites(); ++i)  mtypes.push_back(mstructure->siteAtomType(i));
            store.clear();
            this->PairQuantity::resetValue();
        }

        virtual void addPairContribution(const BaseBondGenerator& b, int scale)
        {
            const int n = mtypes.size();
            if (b.site0() < 0 || b.site0() >= n || b.site1() < 0 || b.site1() >= n)
                vt::fail("contribution of sites out of range");
            if (!this->getPairMask(b.site0(), b.site1()))
                vt::fail("contribution of a masked pair");
            if (b.distance() < this->getRmin() - 1e-12 || b.distance() > this->getRmax() + 1e-12)
                vt::fail("contribution at distance " + vt::str(b.distance()));
            if (mfull ? abs(scale) != 1 : (abs(scale) != (b.site0() == b.site1() ? 1 : 2)))
                vt::fail("summation scale " + vt::str(scale));
            string k = key(mfull, msite, mtypes, b.site0(), b.site1());
            double w = double(scale) * b.multiplicity();
            store[k].push_back(make_pair(b.distance(), w));
            mvalue[binOf(k)] += w;
        }

        virtual void stashPartialValue()
        {
            if (nostash)  this->PairQuantity::stashPartialValue();
            mstash = store;
            mstashvalue = mvalue;
        }

        virtual void restorePartialValue()
        {
            store.swap(mstash);
            mvalue.swap(mstashvalue);
        }

        virtual void finishValue()  { ++nfinished; }

    private:

        bool mfull, msite;
        vector<string> mtypes;
        Store mstash;
        QuantityType mstashvalue;
};

typedef boost::shared_ptr<Recorder> RecorderPtr;

// expected contributions with the opposite sign
void subtractExpected(Store& st, const ref::Model& m, const PairQuantity& pq,
        bool full, bool persite, vector<double>& bins)
{
    vector<int> mult = ref::multiplicities(m);
    bins.assign(NBINS, 0.0);
    vector<string> types;
    for (const ref::Site& s : m.sites)  types.push_back(s.type);
    for (size_t i = 0; i < m.sites.size(); ++i)
        for (const ref::Bond& b : ref::bonds(m, i, pq.getRmin(), pq.getRmax()))
        {
            if (!pq.getPairMask(i, b.i1))  continue;
            string k = Recorder::key(full, persite, types, i, b.i1);
            st[k].push_back(make_pair(b.d, -1.0 * mult[i]));
            bins[binOf(k)] += mult[i];
        }
}

int checkStore(const string& what, Store st)
{
    int n = 0;
    for (auto& kv : st)
    {
        vector<pair<double, double> >& v = kv.second;
        sort(v.begin(), v.end());
        for (size_t i = 0; i < v.size(); )
        {
            double sum = 0, d0 = v[i].first;
            size_t j = i;
            for (; j < v.size() && v[j].first < d0 + 1e-6 + 1e-6 * (j > i ? 1 : 0); ++j)
            {
                sum += v[j].second;
                d0 = v[j].first;
                ++n;
            }
            if (sum != 0)
                vt::fail(what + ": contributions of " + kv.first + " at distance " + vt::str(v[i].first) +
                        " have a weight that is off by " + vt::str(sum));
            i = j;
        }
    }
    return n;
}

// no pair distances at the limits
bool clearRange(const ref::Model& m, const PairQuantity& pq)
{
    if (ref::hasAmbiguousSelf(m))  return false;
    for (double r : {pq.getRmin(), pq.getRmax()})
    {
        if (r <= 0)  continue;
        for (size_t i = 0; i < m.sites.size(); ++i)
            if (ref::bonds(m, i, r - 1e-6, r + 1e-6).size())  return false;
    }
    return true;
}

}   // namespace


// contributions in any history equal those in one pass over all pairs
VT_PROP(recorder, "a fast update, or two or more workers, and at least 10 contributions", 36000, 900000)
{
    GenOpts so;
    so.maxsites = c.oneof({6, 8, 4});
    so.maxcell = 16;
    so.cellmin = 3;
    so.cellmax = 5;
    if (c.flag())  so.crystal = false;
    bool full = c.flag(), persite = c.chance(1, 3);
    int ncpu = c.flag() ? 1 : c.oneof({2, 3, 5, 8});
    CfgOpts co;
    co.types = typePool(so);
    co.conflictmasks = c.chance(1, 3);
    co.siteall = c.range(-1, 1);
    vector<RecorderPtr> q;
    int evtp = c.below(4);
    for (int i = 0; i < ncpu; ++i)
    {
        q.push_back(boost::make_shared<Recorder>(full, persite));
        if (evtp)  q[i]->setEvaluatorType(evtp == 3 ? sr::CHECK : sr::OPTIMIZED);
        if (ncpu > 1)  q[i]->setupParallelRun(i, ncpu);
        q[i]->setRmax(4.0007319);
    }
    // the CHECK evaluator compares contributions of one worker, but a fast
    // update splits the work in a different way
    if (evtp == 3 && ncpu > 1)  c.discard();
    c.note() << (full ? "full sum " : "half sum ") << (persite ? "per site " : "") << ncpu << " workers, evaluator " << evtp << "\n";
    ref::Model m = genModel(c, so);
    c.note() << m.str() << "\n";
    StructureAdapterPtr cur = ref::build(m);
    int nfast = 0, ncon = 0;
    int nsteps = c.range(1, 7);
    for (int i = 0; i <= nsteps; ++i)
    {
        bool noarg = false;
        if (i)
        {
            int op = c.below(10);
            if (op < 6)
            {
                c.note() << "edit: " << mutateModel(c, m, so) << "\n";
                if (!(c.chance(1, 3) && editInPlace(cur, m, c.flag())))  cur = ref::build(m);
            }
            else if (op < 8)
            {
                co.nsites = max(1, int(m.sites.size()));
                Op o = genMaskOp(c, co);
                c.note() << o.desc << "\n";
                for (auto& p : q)  o.fn(*p);
                noarg = c.flag();
            }
            else if (op == 8)
            {
                double lo = c.oneof({0.0, 1.0007319, 2.0007319}), hi = c.oneof({4.0007319, 3.0007319, 5.0007319});
                c.note() << "range " << lo << " " << hi << "\n";
                for (auto& p : q)  { p->setRmin(lo); p->setRmax(hi); }
                noarg = c.flag();
            }
            else
            {
                int t = c.below(2);
                c.note() << "evaluator type " << t << "\n";
                for (auto& p : q)
                {
                    p->setEvaluatorType(sr::BASIC);
                    p->setEvaluatorType(t ? sr::OPTIMIZED : sr::BASIC);
                }
            }
        }
        if (!clearRange(m, *q[0]))  c.discard();
        Store all;
        vector<double> sum(NBINS, 0.0);
        PairQuantity master;
        for (int k = 0; k < ncpu; ++k)
        {
            q[k]->nfinished = 0;
            if (noarg && q[k]->getStructure() == cur)  q[k]->eval();
            else  q[k]->eval(cur);
            if (!q[k]->nfinished)  vt::fail("value was not finished");
            if (q[k]->getEvaluatorTypeUsed() != sr::BASIC)  ++nfast;
            for (auto& kv : q[k]->store)
                all[kv.first].insert(all[kv.first].end(), kv.second.begin(), kv.second.end());
            VT_CHECK(q[k]->value().size() == NBINS, "size");
            for (int b = 0; b < NBINS; ++b)  sum[b] += q[k]->value()[b];
        }
        vector<double> bins;
        subtractExpected(all, m, *q[0], full, persite, bins);
        int n = checkStore("step " + vt::str(i), all);
        ncon = max(ncon, n);
        for (int b = 0; b < NBINS; ++b)
            if (sum[b] != bins[b])  vt::fail("value is " + vt::strv(sum) + " expected " + vt::strv(bins));
        if (ncpu > 1)
        {
            RecorderPtr ms = boost::make_shared<Recorder>(full, persite);
            ms->setStructure(cur);
            for (int k : c.permutation(ncpu))  ms->mergeParallelData(q[k]->getParallelData(), ncpu);
            for (int b = 0; b < NBINS; ++b)
                if (ms->value()[b] != bins[b])  vt::fail("merged value is " + vt::strv(ms->value()) + " expected " + vt::strv(bins));
        }
    }
    if (nfast)  c.label("fast update");
    if (ncpu > 1)  c.label("parallel");
    if (persite)  c.label("per site");
    if ((nfast || ncpu > 1) && ncon >= 20)  c.nontrivial();
}


// a calculator without support for partial values has no fast updates
VT_PROP(unsupported, "structure with pairs in range", 1500, 9000)
{
    Recorder q(c.flag(), false);
    q.nostash = true;
    GenOpts so;
    so.crystal = false;
    so.maxcell = 8;
    ref::Model m = genModel(c, so);
    q.setRmax(3.5007319);
    if (!clearRange(m, q))  c.discard();
    StructureAdapterPtr s = ref::build(m);
    bool first = c.flag();
    if (first)  q.eval(s);
    QuantityType v0 = q.value();
    sr::PQEvaluatorType t = c.flag() ? sr::OPTIMIZED : sr::CHECK;
    VT_THROWS(q.setEvaluatorType(t), logic_error, "evaluator type without support");
    VT_CHECK(q.getEvaluatorType() == sr::BASIC, "evaluator type");
    VT_CHECK(q.value() == v0, "value after the rejected evaluator");
    q.eval(s);
    VT_CHECK(q.getEvaluatorTypeUsed() == sr::BASIC, "used type");
    for (double x : q.value())  if (x)  { c.nontrivial(); break; }
}

namespace {

// structure which does not tell about some of its changed atoms
class Liar : public AtomicStructureAdapter
{
    public:

        int hide = 0;

        virtual StructureAdapterPtr clone() const
        {
            return boost::make_shared<Liar>(*this);
        }

        virtual StructureDifference diff(StructureAdapterConstPtr other) const
        {
            StructureDifference sd = this->AtomicStructureAdapter::diff(other);
            if (sd.diffmethod == StructureDifference::Method::NONE)  return sd;
            for (int i = 0; i < hide; ++i)
            {
                if (sd.pop0.size())  sd.pop0.pop_back();
                if (sd.add1.size())  sd.add1.pop_back();
            }
            return sd;
        }
};

}   // namespace

// the CHECK evaluator reports a fast update with wrong results
VT_PROP(checkevaluator, "fast update gave a wrong result", 30000, 450000)
{
    Kind k = c.oneof({PDF, DEBYE, BOND});
    GenOpts so = structureOpts(k);
    so.periodic = so.crystal = false;
    so.minsites = 5;
    so.maxsites = 9;
    so.mindist = 0.5;
    CfgOpts co;
    co.types = typePool(so);
    co.masks = false;
    co.mindebyeprec = 1e-12;
    Op ini = initialConfig(c, k, co);
    ref::Model a = genModel(c, so), b = a;
    if (a.sites.size() < 5)  c.discard();
    int nch = c.range(1, 2);
    bool bondrotation = c.chance(1, 4);
    for (int i = 0; i < nch; ++i)
    {
        int j = c.below(b.sites.size());
        if (bondrotation)
        {
            // keep distances from the first site
            ref::V3 d = b.sites[j].r - b.sites[0].r;
            b.sites[j].r = b.sites[0].r + ref::mul(ref::rotation(genUnitVector(c), c.real(0.2, 3.0)), d);
        }
        else
        {
            ref::Site s = genSite(c, so);
            if (c.flag())  s.r = b.sites[j].r;
            b.sites[j] = s;
        }
    }
    if (!validModel(b, so))  c.discard();
    int hide = c.range(0, 2);
    c.note() << kindnames[k] << " " << ini.desc << "\n" << a.str() << "\n" << b.str() << "\nhide " << hide << "\n";
    auto mk = [&](const ref::Model& m) {
        boost::shared_ptr<Liar> rv = boost::make_shared<Liar>();
        for (const ref::Site& s : m.sites)  rv->append(ref::toAtom(s));
        rv->hide = hide;
        return rv;
    };
    StructureAdapterPtr sa = mk(a), sb = mk(b);
    PQPtr opt = make(k), chk = make(k), bas = make(k);
    for (auto& p : {opt, chk, bas})  ini.fn(*p);
    opt->setEvaluatorType(sr::OPTIMIZED);
    chk->setEvaluatorType(sr::CHECK);
    bas->setEvaluatorType(sr::BASIC);
    for (auto& p : {opt, chk, bas})  p->eval(sa);
    opt->eval(sb);
    bas->eval(sb);
    bool fast = opt->getEvaluatorTypeUsed() == sr::OPTIMIZED;
    // outcome of comparison: clearly equal, clearly different or unclear
    bool differ = false, equal = true;
    const QuantityType &vo = opt->value(), &vb = bas->value();
    double mx = 1;
    if (vo.size() != vb.size())  differ = true, equal = false;
    else
    {
        double mxd = 0;
        for (size_t i = 0; i < vo.size(); ++i)
        {
            mx = max(mx, max(fabs(vo[i]), fabs(vb[i])));
            mxd = max(mxd, fabs(vo[i] - vb[i]));
        }
        if (mxd > 1e-6 * mx)  differ = true;
        if (mxd > 1e-11 * mx)  equal = false;
    }
    if (k == BOND && !differ)
    {
        const BondCalculator& bo = dynamic_cast<BondCalculator&>(*opt);
        const BondCalculator& bb = dynamic_cast<BondCalculator&>(*bas);
        if (bo.sites0() != bb.sites0() || bo.sites1() != bb.sites1())  differ = true, equal = false;
        else
            for (size_t i = 0; i < bb.directions().size(); ++i)
            {
                double d = R3::norm(R3::Vector(bo.directions()[i] - bb.directions()[i]));
                if (d > 1e-5)  differ = true;
                if (d > 1e-11)  equal = false;
            }
        if (bo.types0() != bb.types0() || bo.types1() != bb.types1())  differ = true, equal = false;
    }
    bool thrown = false;
    try { chk->eval(sb); }
    catch (const logic_error&) { thrown = true; }
    if (fast && differ && !thrown)  vt::fail("inconsistent results were not reported");
    if (thrown && (equal || !fast))  vt::fail("consistent results were reported as an error");
    if (!thrown)
    {
        compareResults("after a check", results(*chk), results(*bas), 1e-8, 1e-9);
        sr::PQEvaluatorType u = chk->getEvaluatorTypeUsed();
        if (u != (fast ? sr::CHECK : sr::BASIC) && u != (fast ? sr::CHECK : sr::OPTIMIZED))
            vt::fail("evaluator type used is " + vt::str(int(u)));
    }
    // results are good again in the next evaluation
    chk->setEvaluatorType(sr::BASIC);
    chk->eval(sa);
    bas->eval(sa);
    compareResults("next evaluation", results(*chk), results(*bas), 1e-8, 1e-9);
    c.label(thrown ? "error reported" : fast ? "no error" : "no fast update");
    if (fast && differ)  c.nontrivial();
}

namespace {

// minimal structure of the user
class UserStructure : public StructureAdapter
{
    public:

        vector<ref::Site> sites;
        vector<R3::Vector> xyz;
        vector<R3::Matrix> uij;

        void set(const ref::Model& m)
        {
            sites = m.sites;
            xyz.clear();
            uij.clear();
            for (const ref::Site& s : sites)
            {
                xyz.push_back(ref::toR3(s.r));
                uij.push_back(ref::toR3(s.U));
            }
        }

        virtual StructureAdapterPtr clone() const { return boost::make_shared<UserStructure>(*this); }
        virtual BaseBondGeneratorPtr createBondGenerator() const
        {
            return boost::make_shared<BaseBondGenerator>(this->shared_from_this());
        }
        virtual int countSites() const  { return sites.size(); }
        virtual const R3::Vector& siteCartesianPosition(int i) const { return xyz.at(i); }
        virtual bool siteAnisotropy(int i) const { return sites.at(i).aniso; }
        virtual const R3::Matrix& siteCartesianUij(int i) const { return uij.at(i); }
};

class TypedStructure : public UserStructure
{
    public:

        double density = 0;
        virtual StructureAdapterPtr clone() const { return boost::make_shared<TypedStructure>(*this); }
        virtual const string& siteAtomType(int i) const { return sites.at(i).type; }
        virtual double siteOccupancy(int i) const { return sites.at(i).occ; }
        virtual double numberDensity() const { return density; }
};

void userStructure(Case& c, Kind k)
{
    GenOpts so = structureOpts(k);
    so.periodic = so.crystal = false;
    CfgOpts co;
    co.types = typePool(so);
    co.mindebyeprec = 1e-12;
    bool bare = (k == COUNTER || k == BOND) && c.flag();
    ref::Model m = genModel(c, so);
    PQPtr qu = make(k), qa = make(k);
    Op ini = initialConfig(c, k, co);
    c.note() << kindnames[k] << (bare ? " bare " : " ") << ini.desc << "\n" << m.str() << "\n";
    ini.fn(*qu);
    ini.fn(*qa);
    boost::shared_ptr<UserStructure> us;
    if (bare)  us = boost::make_shared<UserStructure>();
    else  us = boost::make_shared<TypedStructure>();
    int nsteps = c.range(1, 4);
    bool pairs = false;
    Scales hist;
    for (int i = 0; i < nsteps; ++i)
    {
        if (i)  c.note() << "edit: " << mutateModel(c, m, so) << "\n";
        if (c.chance(1, 3))
        {
            co.nsites = max(1, int(m.sites.size()));
            Op o = genConfigOp(c, k, co);
            c.note() << o.desc << "\n";
            o.fn(*qu);
            o.fn(*qa);
        }
        ref::Model mb = m;
        if (bare)  for (ref::Site& s : mb.sites)  { s.type = ""; s.occ = 1; }
        us->set(mb);
        if (us->totalOccupancy() != ref::totalOccupancy(mb))  vt::fail("totalOccupancy");
        if (bare && us->countSites())
        {
            VT_CHECK(us->siteAtomType(0) == "" && us->siteOccupancy(0) == 1, "defaults");
        }
        VT_CHECK(us->countSites() == 0 || us->siteMultiplicity(0) == 1, "multiplicity");
        VT_CHECK(us->numberDensity() == 0, "number density");
        vt::checkClose("maxUii", maxUii(us), pdfref::maxU(mb), 1e-7, 1e-12);
        if (c.flag())  qu->eval(us);
        else  { qu->setStructure(us); qu->eval(); }
        StructureAdapterPtr st = ref::build(mb);
        if (c.flag())  qa->eval(st);
        else  { qa->setStructure(st); qa->eval(); }
        compareResults("user structure", results(*qu), results(*qa), 1e-8, 1e-9, &hist);
        for (double x : qu->value())  if (x)  pairs = true;
    }
    if (pairs && nsteps > 1)  c.nontrivial();
}

}   // namespace

VT_PROP(structure_pdf, "two or more evaluations with a non-zero value", 12500, 180000) { userStructure(c, PDF); }
VT_PROP(structure_debye, "two or more evaluations with a non-zero value", 10000, 150000) { userStructure(c, DEBYE); }
VT_PROP(structure_bond, "two or more evaluations with a non-zero value", 15000, 180000) { userStructure(c, BOND); }
VT_PROP(structure_bvs, "two or more evaluations with a non-zero value", 10000, 150000) { userStructure(c, BVS); }
VT_PROP(structure_overlap, "two or more evaluations with a non-zero value", 15000, 180000) { userStructure(c, OVERLAP); }
VT_PROP(structure_counter, "two or more evaluations with a non-zero value", 15000, 180000) { userStructure(c, COUNTER); }


// number density given by the user is used in the baseline
VT_PROP(density, "positive density and occupancy", 7500, 90000)
{
    GenOpts so = structureOpts(PDF);
    so.periodic = so.crystal = false;
    so.minsites = 1;
    ref::Model m = genModel(c, so);
    boost::shared_ptr<TypedStructure> u0 = boost::make_shared<TypedStructure>(), u1 = boost::make_shared<TypedStructure>();
    u0->set(m);
    u1->set(m);
    u1->density = c.oneof({0.01, 0.07, 1.5, 0.0});
    c.note() << m.str() << " density " << u1->density << "\n";
    PDFCalculator p0, p1;
    for (PDFCalculator* p : {&p0, &p1})
    {
        p->setRmax(5);
        p->setRstep(0.1);
        p->setScatteringFactorTableByType("electronnumber");
        for (const ref::Site& s : m.sites)
            p->getScatteringFactorTable()->setCustomAs(s.type, s.type, 3.0);
    }
    p0.eval(u0);
    p1.eval(c.flag() ? StructureAdapterPtr(u1) : u1->clone());
    QuantityType r = p1.getRgrid(), g0 = p0.getPDF(), g1 = p1.getPDF();
    double tot = ref::totalOccupancy(m);
    double mx = 1;
    for (double x : g0)  mx = max(mx, fabs(x));
    for (size_t i = 0; i < r.size(); ++i)
    {
        double b = tot > 0 ? -4 * M_PI * u1->density * r[i] : 0;
        vt::checkClose("baseline from density", g1[i] - g0[i], b, 1e-9, 1e-12 * mx);
    }
    if (tot > 0 && u1->density > 0)  c.nontrivial();
}

namespace {

// structure with a configuration of its own
class Configured : public AtomicStructureAdapter
{
    public:

        double rmax = -1, width = -1;
        string untype;
        bool maskall = false;

        virtual StructureAdapterPtr clone() const { return boost::make_shared<Configured>(*this); }

        void configure(PairQuantity& q) const
        {
            if (rmax > 0)  q.setRmax(rmax);
            if (width > 0)
            {
                PeakWidthModelOwner* o = dynamic_cast<PeakWidthModelOwner*>(&q);
                if (o)
                {
                    o->setPeakWidthModelByType("constant");
                    q.setDoubleAttr("width", width);
                }
            }
            if (maskall)  q.maskAllPairs(true);
            if (!untype.empty())  q.setTypeMask(untype, "all", false);
        }

        virtual void customPQConfig(PairQuantity* pq) const { this->configure(*pq); }
};

void configured(Case& c, Kind k)
{
    GenOpts so = structureOpts(k);
    so.periodic = so.crystal = false;
    so.minsites = 3;
    so.maxsites = 8;
    CfgOpts co;
    co.types = typePool(so);
    co.mindebyeprec = 1e-12;
    ref::Model m = genModel(c, so);
    PQPtr q1 = make(k), q2 = make(k);
    if (supportsOptimized(k) && c.chance(3, 4))  q1->setEvaluatorType(sr::OPTIMIZED);
    q2->setEvaluatorType(sr::BASIC);
    Op ini = initialConfig(c, k, co);
    c.note() << kindnames[k] << " " << ini.desc << "\n" << m.str() << "\n";
    ini.fn(*q1);
    ini.fn(*q2);
    int nsteps = c.range(2, 5), nfast = 0;
    Scales hist;
    for (int i = 0; i < nsteps; ++i)
    {
        if (i && c.chance(3, 4))  c.note() << "edit: " << mutateModel(c, m, so) << "\n";
        boost::shared_ptr<Configured> s = boost::make_shared<Configured>();
        for (const ref::Site& x : m.sites)  s->append(ref::toAtom(x));
        if (c.flag())  s->rmax = c.oneof({3.0007319, 4.0007319, 2.5007319});
        if (c.chance(1, 4))  s->width = c.oneof({0.1, 0.2, 0.4});
        s->maskall = c.flag();
        if (c.chance(1, 3))  s->untype = c.pick(co.types);
        c.note() << "own configuration rmax " << s->rmax << " width " << s->width <<
            " maskall " << s->maskall << " untype " << s->untype << "\n";
        bool assign = c.flag();
        if (assign)  { q1->setStructure(s); q1->eval(); }
        else  q1->eval(s);
        if (k == DEBYE)
        {
            // the pair range depends on the order of changes, thus
            // only the evaluator is different
            if (assign)  { q2->setStructure(s); q2->eval(); }
            else  q2->eval(s);
        }
        else
        {
            // the same done by hand
            s->configure(*q2);
            q2->eval(ref::build(m));
        }
        if (s->rmax > 0 && q1->getRmax() != s->rmax)  vt::fail("rmax from the structure");
        if (q1->getEvaluatorTypeUsed() == sr::OPTIMIZED)  ++nfast;
        compareResults("own configuration", results(*q1), results(*q2), 1e-7, 1e-9, &hist);
    }
    if (nfast)  c.label("fast update");
    c.nontrivial();
}

}   // namespace

VT_PROP(config_pdf, "every case", 12500, 180000) { configured(c, PDF); }
VT_PROP(config_debye, "every case", 7500, 120000) { configured(c, DEBYE); }
VT_PROP(config_bond, "every case", 15000, 180000) { configured(c, BOND); }
VT_PROP(config_overlap, "every case", 7500, 120000) { configured(c, OVERLAP); }

// components -----------------------------------------------------------------

namespace {

class UserProfile : public PeakProfile
{
    public:

        int kind = 0;       // triangle, Lorentzian cut at 3 widths, one-sided box
        virtual PeakProfilePtr create() const { return boost::make_shared<UserProfile>(); }
        virtual PeakProfilePtr clone() const { return boost::make_shared<UserProfile>(*this); }
        virtual const string& type() const { static string t = "user-profile"; return t; }
        virtual double operator()(double x, double w) const { return value(kind, x, w); }
        virtual double xboundlo(double w) const { return w <= 0 ? 0 : kind == 0 ? -w : kind == 1 ? -3 * w : -0.5 * w; }
        virtual double xboundhi(double w) const { return w <= 0 ? 0 : kind == 0 ? w : kind == 1 ? 3 * w : 1.5 * w; }
        void set(int k) { kind = k; mticker.click(); }
        static double value(int kind, double x, double w)
        {
            if (w <= 0)  return 0;
            if (kind == 0)  return fabs(x) < w ? (1 - fabs(x) / w) / w : 0;
            if (kind == 1)  return fabs(x) < 3 * w ? w / 2 / M_PI / (x * x + w * w / 4) : 0;
            return (x > -0.5 * w && x < 1.5 * w) ? 0.5 / w : 0;
        }
        // points where the value is discontinuous or cut
        static bool nearEdge(int kind, double x, double w)
        {
            double e = 1e-7;
            if (kind == 0)  return false;
            if (kind == 1)  return fabs(fabs(x) - 3 * w) < e;
            return fabs(x + 0.5 * w) < e || fabs(x - 1.5 * w) < e;
        }
};

class UserWidth : public PeakWidthModel
{
    public:

        double a = 0.2, b = 0, u = 0;
        virtual PeakWidthModelPtr create() const { return boost::make_shared<UserWidth>(); }
        virtual PeakWidthModelPtr clone() const { return boost::make_shared<UserWidth>(*this); }
        virtual const string& type() const { static string t = "user-width"; return t; }
        virtual double calculate(const BaseBondGenerator& g) const { return a + b * g.distance() + u * g.msd(); }
        virtual double maxWidth(StructureAdapterPtr s, double lo, double hi) const { return a + b * (hi + 3) + 2 * u * maxUii(s); }
        void set(double a1, double b1, double u1) { a = a1; b = b1; u = u1; mticker.click(); }
};

class UserBaseline : public PDFBaseline
{
    public:

        double z = 1;
        virtual PDFBaselinePtr create() const { return boost::make_shared<UserBaseline>(); }
        virtual PDFBaselinePtr clone() const { return boost::make_shared<UserBaseline>(*this); }
        virtual const string& type() const { static string t = "user-baseline"; return t; }
        virtual double operator()(const double& r) const { return z * sin(r) + 0.5 * z; }
};

class UserEnvelope : public PDFEnvelope
{
    public:

        double z = 1;
        string tp = "user-envelope";
        virtual PDFEnvelopePtr create() const { return boost::make_shared<UserEnvelope>(); }
        virtual PDFEnvelopePtr clone() const { return boost::make_shared<UserEnvelope>(*this); }
        virtual const string& type() const { return tp; }
        virtual double operator()(const double& r) const { return 1 / (1 + z * r); }
};

class UserTable : public ScatteringFactorTable
{
    public:

        int common = 0;     // type of a common Q-dependent factor
        virtual ScatteringFactorTablePtr create() const { return boost::make_shared<UserTable>(); }
        virtual ScatteringFactorTablePtr clone() const { return boost::make_shared<UserTable>(*this); }
        virtual const string& type() const { static string t = "user-table"; return t; }
        virtual const string& radiationType() const { static string t = "U"; return t; }
        virtual double standardLookup(const string& s, double q) const { return at0(s) * factor(q); }
        double factor(double q) const { return common == 0 ? 1 : common == 1 ? exp(-q * q / 200) : 1 / (1 + q); }
        static double at0(const string& s)
        {
            double rv = 1;
            for (char ch : s)  rv = rv + (ch % 7) / 3.0;
            return rv;
        }
        void set(int i) { common = i; mticker.click(); }
};

class UserRadii : public AtomRadiiTable
{
    public:

        double scale = 1;
        virtual AtomRadiiTablePtr create() const { return boost::make_shared<UserRadii>(); }
        virtual AtomRadiiTablePtr clone() const { return boost::make_shared<UserRadii>(*this); }
        virtual const string& type() const { static string t = "user-radii"; return t; }
        virtual double standardLookup(const string& s) const { return scale * (0.5 + UserTable::at0(s) / 10); }
};

}   // namespace

VT_PROP(components_pdf, "two or more pairs and two evaluations", 25000, 360000)
{
    GenOpts so = structureOpts(PDF);
    so.maxcell = 12;
    so.mindist = 0.3;
    ref::Model m = genModel(c, so);
    PDFCalculator p;
    if (c.flag())  p.setEvaluatorType(sr::BASIC);
    auto pf = boost::make_shared<UserProfile>();
    auto wd = boost::make_shared<UserWidth>();
    auto bl = boost::make_shared<UserBaseline>();
    auto e1 = boost::make_shared<UserEnvelope>(), e2 = boost::make_shared<UserEnvelope>();
    auto tb = boost::make_shared<UserTable>();
    e2->tp = "user-envelope2";
    p.setPeakProfile(pf);
    p.setPeakWidthModel(wd);
    p.setBaseline(bl);
    p.clearEnvelopes();
    p.addEnvelope(e1);
    p.addEnvelope(e2);
    p.setScatteringFactorTable(tb);
    VT_CHECK(p.getRadiationType() == "U", "radiation type");
    const double dr = c.oneof({0.1003171, 0.0501293});
    double rmin = c.oneof({0.0, 1.0, 2.0}), rmax = c.oneof({3.0, 4.0, 4.7});
    p.setRmin(rmin);
    p.setRmax(rmax);
    p.setRstep(dr);
    p.setMaxExtension(20);
    map<string, double> custom;
    int nsteps = c.range(1, 4), npairs = 0;
    double hist = 0;
    for (int i = 0; i < nsteps; ++i)
    {
        if (i && c.flag())  c.note() << "edit: " << mutateModel(c, m, so) << "\n";
        if (c.flag())  { int k = c.below(3); pf->set(k); c.note() << "profile " << k << "\n"; }
        if (c.flag())
        {
            double a = c.oneof({0.15, 0.3, 0.0, 0.5}), b = c.oneof({0.0, 0.05}), u = c.oneof({0.0, 3.0});
            wd->set(a, b, u);
            c.note() << "width " << a << " " << b << " " << u << "\n";
        }
        if (c.flag())  bl->z = c.oneof({0.0, 1.0, -2.0});
        if (c.flag())  e1->z = c.oneof({0.0, 1.0, 0.3});
        if (c.flag())  e2->z = c.oneof({0.0, 0.1});
        if (c.chance(1, 4) && m.sites.size())
        {
            string t = c.pick(m.sites).type;
            custom[t] = c.oneof({2.0, 5.0});
            tb->setCustomAs(t, t, custom[t]);
            c.note() << "factor " << t << " " << custom[t] << "\n";
        }
        c.note() << m.str() << "\n";
        p.eval(ref::build(m));
        // reference
        vector<int> mult = ref::multiplicities(m);
        double tot = ref::totalOccupancy(m), fs = 0;
        vector<double> f;
        for (size_t j = 0; j < m.sites.size(); ++j)
        {
            const string& t = m.sites[j].type;
            f.push_back((custom.count(t) ? custom[t] : UserTable::at0(t)) * m.sites[j].occ);
            fs += f[j] * mult[j];
        }
        int lo = pdfref::stepsUpTo(rmin, dr), hi = pdfref::stepsUpTo(rmax, dr);
        vector<double> rdf(hi - lo, 0.0), tol(hi - lo, 1e-12);
        double mx = 0;
        for (size_t j = 0; j < m.sites.size(); ++j)
            for (const ref::Bond& b : ref::bonds(m, j, 0, rmax + 4.5))
            {
                double w = wd->a + wd->b * b.d + wd->u * b.msd;
                if (w <= 0)  continue;
                for (int k = lo; k < hi; ++k)
                {
                    double x = k * dr - b.d;
                    double y = UserProfile::value(pf->kind, x, w) * f[j] * f[b.i1] * mult[j] * k * dr / b.d;
                    if (UserProfile::nearEdge(pf->kind, x, w))
                        tol[k - lo] += fabs(f[j] * f[b.i1] * mult[j]) * 2 / w * k * dr / b.d;
                    rdf[k - lo] += y;
                    mx = max(mx, fabs(y));
                    if (y)  ++npairs;
                }
            }
        double sc = tot > 0 && fs ? tot / fs / fs : 0;
        hist = max(hist, mx);
        QuantityType rg = p.getRgrid(), rd = p.getRDF(), g = p.getPDF();
        VT_CHECK(int(rg.size()) == hi - lo && rd.size() == rg.size() && g.size() == rg.size(), "size");
        for (int k = 0; k < hi - lo; ++k)
        {
            double r = rg[k], t = (tol[k] + 1e-11 * hist) * sc + 1e-11;
            vt::checkClose("RDF at " + vt::str(r), rd[k], rdf[k] * sc, 1e-9, t);
            double x = r > 0 ? rdf[k] * sc / r : 0;
            x += bl->z * sin(r) + 0.5 * bl->z;
            x /= (1 + e1->z * r) * (1 + e2->z * r);
            vt::checkClose("PDF at " + vt::str(r), g[k], x, 1e-9, t / max(r, dr) + 1e-10);
        }
    }
    if (npairs > 1 && nsteps > 1)  c.nontrivial();
}


// a factor common to all atoms at every Q cancels out
VT_PROP(components_debye, "at least two sites and a Q-dependent common factor", 10000, 150000)
{
    GenOpts so = structureOpts(DEBYE);
    so.maxcell = 8;
    ref::Model m = genModel(c, so);
    DebyePDFCalculator d0, d1;
    auto tb = boost::make_shared<UserTable>();
    auto w0 = boost::make_shared<UserWidth>(), w1 = boost::make_shared<UserWidth>();
    d1.setScatteringFactorTable(tb);
    d0.setScatteringFactorTableByType("N");
    w0->a = w1->a = c.oneof({0.0, 0.1, 0.3});
    d0.setPeakWidthModel(w0);
    d1.setPeakWidthModel(w1);
    for (DebyePDFCalculator* d : {&d0, &d1})
    {
        d->setRmax(4);
        d->setRstep(0.1);
        d->setQmax(10);
        d->setMaxExtension(2);
        d->setDebyePrecision(1e-12);
    }
    int nsteps = c.range(1, 3);
    bool dep = false;
    Scales hist;
    for (int i = 0; i < nsteps; ++i)
    {
        if (i)  c.note() << "edit: " << mutateModel(c, m, so) << "\n";
        if (c.flag())  tb->set(c.below(3));
        if (c.flag())
        {
            double a = c.oneof({0.15, 0.3, 0.0, 0.5}), b = c.oneof({0.0, 0.05});
            w0->set(a, b, 0);
            w1->set(a, b, 0);
        }
        if (tb->common)  dep = true;
        for (const ref::Site& s : m.sites)
            d0.getScatteringFactorTable()->setCustomAs(s.type, "C", UserTable::at0(s.type));
        c.note() << m.str() << " factor " << tb->common << " width " << w0->a << " " << w0->b << "\n";
        StructureAdapterPtr st = ref::build(m);
        d0.eval(st);
        d1.eval(st);
        Results r0, r1;
        r0.arr["F"] = d0.getF();
        r1.arr["F"] = d1.getF();
        r0.arr["G"] = d0.getPDF();
        r1.arr["G"] = d1.getPDF();
        compareResults("common factor", r1, r0, 1e-7, 1e-8, &hist);
    }
    if (dep && m.sites.size() > 1)  c.nontrivial();
}


VT_PROP(components_radii, "some overlap", 12500, 180000)
{
    GenOpts so = structureOpts(OVERLAP);
    ref::Model m = genModel(c, so);
    OverlapCalculator o0, o1;
    auto ut = boost::make_shared<UserRadii>();
    auto ct = boost::make_shared<ConstantRadiiTable>();
    o0.setAtomRadiiTable(ct);
    o1.setAtomRadiiTable(ut);
    int nsteps = c.range(1, 3);
    for (int i = 0; i < nsteps; ++i)
    {
        if (i)  c.note() << "edit: " << mutateModel(c, m, so) << "\n";
        ut->scale = c.oneof({1.0, 2.0, 1.5});
        if (c.chance(1, 4) && m.sites.size())  ut->setCustom(c.pick(m.sites).type, c.oneof({0.7, 1.3}));
        for (const ref::Site& s : m.sites)  ct->setCustom(s.type, ut->lookup(s.type));
        c.note() << m.str() << " scale " << ut->scale << "\n";
        StructureAdapterPtr st = ref::build(m);
        o0.eval(st);
        o1.eval(st);
        compareResults("user radii", results(o1), results(o0), 1e-10, 1e-11);
        if (o0.totalSquareOverlap() > 0)  c.nontrivial();
    }
}
