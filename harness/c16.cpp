// C16 Named double attributes mirror the configuration exactly
#include "calc.hpp"
#include <diffpy/srreal/ConstantPeakWidth.hpp>
#include <diffpy/srreal/DebyeWallerPeakWidth.hpp>
#include <diffpy/srreal/JeongPeakWidth.hpp>
#include <diffpy/srreal/LinearBaseline.hpp>
#include <diffpy/srreal/PDFBaseline.hpp>
#include <diffpy/srreal/QResolutionEnvelope.hpp>
#include <diffpy/srreal/ScaleEnvelope.hpp>
#include <diffpy/srreal/SphericalShapeEnvelope.hpp>
#include <diffpy/srreal/StepCutEnvelope.hpp>

using namespace std;
using namespace calc;
using namespace diffpy::srreal;
using diffpy::attributes::DoubleAttributeError;
using diffpy::Attributes;

namespace {

// name -> direct setter (empty when read-only) and direct getter
struct Acc
{
    function<double()> get;
    function<void(double)> set;
    vector<double> values;      // valid values to be written
    vector<double> bad;         // values the setter is to reject
};
typedef map<string, Acc> Table;

void add(Table& t, const string& n, function<double()> g, function<void(double)> s,
        vector<double> v, vector<double> bad=vector<double>())
{
    Acc a = {g, s, v, bad};
    t[n] = a;
}

#define ACC(T, OBJ, NAME, GET, SET, ...) \
    add(t, NAME, [=]() { return double((OBJ)->GET()); }, [=](double x) { (OBJ)->SET(x); }, __VA_ARGS__)
#define ACCRO(OBJ, NAME, GET) \
    add(t, NAME, [=]() { return double((OBJ)->GET()); }, nullptr, vector<double>())

void componentTable(Table& t, Attributes* a)
{
    const double u2b = 8 * M_PI * M_PI;
    if (ConstantPeakWidth* p = dynamic_cast<ConstantPeakWidth*>(a))
    {
        const double g = 2 * sqrt(2 * log(2.0));
        ACC(t, p, "width", getWidth, setWidth, {0.1, 0.25, 0.5, 0});
        // fwhm of the peak for a pair of atoms of the same isotropic displacement
        add(t, "uisowidth", [=]() { double w = p->getWidth() / g; return 0.5 * w * w; },
                [=](double u) { p->setWidth(g * sqrt(2 * u)); }, {0.001, 0.005, 0.02, 0.04, 0});
        add(t, "bisowidth", [=]() { double w = p->getWidth() / g; return 0.5 * w * w * u2b; },
                [=](double b) { p->setWidth(g * sqrt(2 * b / u2b)); }, {0.1, 0.5, 2, 0});
    }
    if (JeongPeakWidth* p = dynamic_cast<JeongPeakWidth*>(a))
    {
        ACC(t, p, "delta1", getDelta1, setDelta1, {0, 0.3, 1, 1.7, -0.5});
        ACC(t, p, "delta2", getDelta2, setDelta2, {0, 0.3, 1, 2.3, -0.5});
        ACC(t, p, "qbroad", getQbroad, setQbroad, {0, 0.01, 0.1, 0.3});
        ACC(t, p, "qbroad_seperable", getQbroad_seperable, setQbroad_seperable, {0, 0.01, 0.1, 0.05});
    }
    if (PeakProfile* p = dynamic_cast<PeakProfile*>(a))
        ACC(t, p, "peakprecision", getPrecision, setPrecision, {1e-9, 1e-6, 1e-7, 0.001});
    if (LinearBaseline* p = dynamic_cast<LinearBaseline*>(a))
        ACC(t, p, "slope", getSlope, setSlope, {0, 1, -2.5});
    if (QResolutionEnvelope* p = dynamic_cast<QResolutionEnvelope*>(a))
        ACC(t, p, "qdamp", getQdamp, setQdamp, {0, 0.05, 0.2});
    if (ScaleEnvelope* p = dynamic_cast<ScaleEnvelope*>(a))
        ACC(t, p, "scale", getScale, setScale, {1, 2.5, -1, 0, 0.1});
    if (SphericalShapeEnvelope* p = dynamic_cast<SphericalShapeEnvelope*>(a))
        ACC(t, p, "spdiameter", getSPDiameter, setSPDiameter, {0, 5, 12.5, 30});
    if (StepCutEnvelope* p = dynamic_cast<StepCutEnvelope*>(a))
        ACC(t, p, "stepcut", getStepCut, setStepCut, {0, 2.5, 4, 12});
}

Table expectedTable(PairQuantity* q)
{
    Table t;
    if (PDFCalculator* p = dynamic_cast<PDFCalculator*>(q))
    {
        ACC(t, p, "qmin", getQmin, setQmin, {0, 1.5, 0.7}, {-0.5, -1e-3});
        ACC(t, p, "qmax", getQmax, setQmax, {0, 10, 17.5, 25}, {-1});
        ACCRO(p, "qstep", getQstep);
        ACC(t, p, "rmin", getRmin, setRmin, {0, 0.5, 1.2007319, 2.5007}, {-0.1});
        ACC(t, p, "rmax", getRmax, setRmax, {3.0007, 5.0007, 4.4007}, {-2});
        ACC(t, p, "rstep", getRstep, setRstep, {0.1003171, 0.0501293, 0.07}, {0, -0.1});
        ACC(t, p, "maxextension", getMaxExtension, setMaxExtension, {0, 1, 5, 2.2}, {-1});
        ACCRO(p, "extendedrmin", getExtendedRmin);
        ACCRO(p, "extendedrmax", getExtendedRmax);
        componentTable(t, p->getPeakWidthModel().get());
        componentTable(t, p->getPeakProfile().get());
        componentTable(t, p->getBaseline().get());
        for (const string& e : p->usedEnvelopeTypes())
            componentTable(t, p->getEnvelopeByType(e).get());
    }
    else if (DebyePDFCalculator* p = dynamic_cast<DebyePDFCalculator*>(q))
    {
        ACC(t, p, "qmin", getQmin, setQmin, {0, 1.5, 0.7}, {-0.5});
        ACC(t, p, "qmax", getQmax, setQmax, {10, 7.5, 15}, {-1});
        ACC(t, p, "qstep", getQstep, setQstep, {0.2, 0.1, 0.05, 0.31}, {0, -0.1});
        ACC(t, p, "rmin", getRmin, setRmin, {0, 0.5, 1.2007319, 2.5007}, {-0.1});
        ACC(t, p, "rmax", getRmax, setRmax, {3.0007, 5.0007, 4.4007}, {-2});
        ACC(t, p, "rstep", getRstep, setRstep, {0.1003171, 0.0501293, 0.07}, {0, -0.1});
        ACC(t, p, "maxextension", getMaxExtension, setMaxExtension, {0, 1, 5, 2.2}, {-1});
        // limits of the calculation have no other getter
        add(t, "extendedrmin", nullptr, nullptr, vector<double>());
        add(t, "extendedrmax", nullptr, nullptr, vector<double>());
        ACC(t, p, "debyeprecision", getDebyePrecision, setDebyePrecision, {1e-6, 1e-9, 1e-4});
        componentTable(t, p->getPeakWidthModel().get());
        for (const string& e : p->usedEnvelopeTypes())
            componentTable(t, p->getEnvelopeByType(e).get());
    }
    else
    {
        ACC(t, q, "rmin", getRmin, setRmin, {0, 0.5, 1.2007319, 2.5007});
        ACC(t, q, "rmax", getRmax, setRmax, {3.0007, 5.0007, 4.4007});
        if (BVSCalculator* p = dynamic_cast<BVSCalculator*>(q))
        {
            ACC(t, p, "valenceprecision", getValencePrecision, setValencePrecision, {1e-5, 1e-3, 0.01, 0.1}, {0, -0.1});
            ACCRO(p, "rmaxused", getRmaxUsed);
        }
        if (OverlapCalculator* p = dynamic_cast<OverlapCalculator*>(q))
            ACCRO(p, "rmaxused", getRmaxUsed);
    }
    return t;
}

const vector<string>& allNames()
{
    static const vector<string> rv = {
        "bisowidth", "debyeprecision", "delta1", "delta2", "extendedrmax",
        "extendedrmin", "maxextension", "peakprecision", "qbroad",
        "qbroad_seperable", "qdamp", "qmax", "qmin", "qstep", "rmax",
        "rmaxused", "rmin", "rstep", "scale", "slope", "spdiameter",
        "stepcut", "uisowidth", "valenceprecision", "width",
        "", "Rmin", "rmin ", "qMax", "evaluator", "type", "value", "unknown" };
    return rv;
}

bool rough(const string& n) { return n == "uisowidth" || n == "bisowidth"; }

void checkNames(const string& what, const Attributes& a, const Table& t)
{
    set<string> names, writable;
    for (auto& kv : t)
    {
        names.insert(kv.first);
        if (kv.second.set)  writable.insert(kv.first);
    }
    set<string> gn = a.namesOfDoubleAttributes(), gw = a.namesOfWritableDoubleAttributes();
    VT_CHECK(gn == names, what << " names " << vt::strv(gn) << " expected " << vt::strv(names));
    VT_CHECK(gw == writable, what << " writable names " << vt::strv(gw) << " expected " << vt::strv(writable));
    for (const string& n : allNames())
    {
        VT_CHECK(a.hasDoubleAttr(n) == bool(names.count(n)), what << " hasDoubleAttr " << n);
        if (!names.count(n))  VT_THROWS(a.getDoubleAttr(n), DoubleAttributeError, what + " get " + n);
    }
    for (auto& kv : t)
    {
        double v = a.getDoubleAttr(kv.first);
        if (!kv.second.get)  continue;
        double g = kv.second.get();
        if (rough(kv.first))  vt::checkClose(what + " " + kv.first, v, g, 1e-12, 1e-15);
        else VT_CHECK(v == g, what << " attribute " << kv.first << " is " << v << " getter gives " << g);
    }
}

// outcome of a write
enum Out { DONE, INVALID, ATTRERR, OTHER };

template <class F> Out attempt(F f)
{
    try { f(); }
    catch (DoubleAttributeError&) { return ATTRERR; }
    catch (invalid_argument&) { return INVALID; }
    catch (exception&) { return OTHER; }
    return DONE;
}

}   // namespace


VT_PROP(calculators, "at least two effective writes by name followed by an evaluation", 30000, 600000)
{
    Kind k = c.oneof({PDF, PDF, PDF, DEBYE, DEBYE, BOND, BVS, OVERLAP, COUNTER});
    c.label(kindnames[k]);
    GenOpts so = structureOpts(k);
    so.maxsites = 3;
    so.maxcell = 8;
    CfgOpts co;
    co.masks = false;
    co.ranges = false;
    co.cones = false;
    co.nsites = 3;
    co.rmaxhi = 5.0;
    co.types = typePool(so);
    PQPtr a = make(k), b = make(k);
    Op ini = initialConfig(c, k, co);
    ini.fn(*a), ini.fn(*b);
    c.note() << kindnames[k] << " " << ini.desc << "\n";
    ref::Model m = genModel(c, so);
    StructureAdapterPtr stru = ref::build(m);
    int nsteps = c.range(1, 8);
    int writes = 0;
    bool evaluated = false;
    for (int i = 0; i < nsteps; ++i)
    {
        int what = c.below(6);
        if (what == 0)
        {
            if ((k == PDF || k == DEBYE) && c.chance(2, 3))
            {
                string e = c.oneof<const char*>({"scale", "qresolution", "sphericalshape", "stepcut"});
                string w = c.oneof<const char*>({"constant", "jeong", "debye-waller"});
                bool ev = c.flag();
                c.note() << "both: " << (ev ? e : w) << "\n";
                for (PQPtr q : {a, b})
                {
                    if (ev)  dynamic_cast<PDFEnvelopeOwner&>(*q).addEnvelopeByType(e);
                    else  dynamic_cast<PeakWidthModelOwner&>(*q).setPeakWidthModelByType(w);
                }
            }
            else
            {
                Op o = genConfigOp(c, k, co);
                c.note() << "both: " << o.desc << "\n";
                o.fn(*a), o.fn(*b);
            }
        }
        else if (what == 1)
        {
            c.note() << "evaluate\n";
            a->eval(stru), b->eval(stru);
            compareResults("results", results(*a, true), results(*b, true), 0, 0);
            if (writes >= 2)  evaluated = true;
        }
        else if (what == 2)
        {
            // invalid names or read-only names
            string n = c.pick(allNames());
            Table t = expectedTable(a.get());
            if (t.count(n) && t[n].set)  continue;
            c.note() << "rejected write to " << n << "\n";
            map<string, string> c0 = configOf(*a, 3, co.types);
            VT_CHECK(attempt([&]() { a->setDoubleAttr(n, c.oneof({1.5, 0.0, -1.0})); }) == ATTRERR, "write to " << n);
            compareConfig("after rejected write to " + n, configOf(*a, 3, co.types), c0);
            configOf(*b, 3, co.types);
            configOf(*b, 3, co.types);
            c.label("rejected name");
        }
        else
        {
            Table tb = expectedTable(b.get());
            vector<string> wr;
            for (auto& kv : tb)  if (kv.second.set)  wr.push_back(kv.first);
            string n = c.pick(wr);
            Acc& acc = tb[n];
            bool bad = !acc.bad.empty() && c.chance(1, 5);
            double v = bad ? c.pick(acc.bad) : c.pick(acc.values);
            c.note() << "write " << n << " " << v << "\n";
            double old = a->getDoubleAttr(n);
            b->getDoubleAttr(n);
            // width set from uisowidth may be rounded differently, use the
            // same path for both and check against the formula
            Out oa = attempt([&]() { a->setDoubleAttr(n, v); });
            if (rough(n))
            {
                Table ta = expectedTable(a.get());
                vt::checkClose("write of " + n, ta[n].get(), v, 1e-12, 1e-15);
                Out ob = attempt([&]() { b->setDoubleAttr(n, v); });
                VT_CHECK(oa == DONE && ob == DONE, "write of " << n);
            }
            else
            {
                Out ob = attempt([&]() { acc.set(v); });
                VT_CHECK(oa == ob, "write " << n << "=" << v << " by name gives " << oa << ", by setter " << ob);
                VT_CHECK(oa == (bad ? INVALID : DONE), "write " << n << "=" << v << " result " << oa);
                if (bad)
                {
                    VT_CHECK(a->getDoubleAttr(n) == old, "rejected value of " << n << " changes the attribute");
                    b->getDoubleAttr(n);
                    c.label("rejected value");
                }
                else if (n != "qstep" && !(k == PDF && n == "qmax"))
                {
                    VT_CHECK(a->getDoubleAttr(n) == v, n << " set to " << v << " but is " << a->getDoubleAttr(n));
                    b->getDoubleAttr(n);
                }
            }
            if (!bad && v != old)  ++writes;
            c.label(n);
        }
        compareConfig("configuration", configOf(*a, 3, co.types), configOf(*b, 3, co.types));
        Table ta = expectedTable(a.get());
        checkNames(kindnames[k], *a, ta);
        checkNames(kindnames[k], *b, expectedTable(b.get()));
    }
    a->eval(stru), b->eval(stru);
    compareResults("results", results(*a, true), results(*b, true), 0, 0);
    if (writes >= 2)  evaluated = true;
    if (evaluated)  c.nontrivial();
}


namespace {

typedef boost::shared_ptr<Attributes> AttrPtr;

// response of a component
string response(Attributes* a)
{
    ostringstream o;
    o << setprecision(17);
    if (PeakWidthModel* p = dynamic_cast<PeakWidthModel*>(a))
    {
        AtomicStructureAdapterPtr s(new AtomicStructureAdapter);
        Atom at;
        at.atomtype = "C";
        at.uij_cartn = R3::identity();
        at.uij_cartn *= 0.01;
        s->append(at);
        at.xyz_cartn = R3::Vector(1.3, 0.4, 0.7);
        s->append(at);
        BaseBondGeneratorPtr g = s->createBondGenerator();
        g->selectAnchorSite(0);
        g->setRmin(0);
        g->setRmax(5);
        for (g->rewind(); !g->finished(); g->next())  o << p->calculate(*g) << " ";
        o << p->maxWidth(s, 0, 4);
    }
    if (PeakProfile* p = dynamic_cast<PeakProfile*>(a))
        o << (*p)(0.1, 0.3) << " " << p->xboundlo(0.3) << " " << p->xboundhi(0.3);
    if (PDFEnvelope* p = dynamic_cast<PDFEnvelope*>(a))
        o << (*p)(0.0) << " " << (*p)(1.5) << " " << (*p)(4) << " " << (*p)(20.3);
    if (PDFBaseline* p = dynamic_cast<PDFBaseline*>(a))
        o << (*p)(0.0) << " " << (*p)(1.5) << " " << (*p)(20.3);
    return o.str();
}

AttrPtr component(int i)
{
    static const char* const pw[] = {"constant", "debye-waller", "jeong"};
    static const char* const pp[] = {"gaussian", "croppedgaussian"};
    static const char* const pb[] = {"zero", "linear"};
    static const char* const pe[] = {"scale", "qresolution", "sphericalshape", "stepcut"};
    if (i < 3)  return PeakWidthModel::createByType(pw[i]);
    if (i < 5)  return PeakProfile::createByType(pp[i - 3]);
    if (i < 7)  return PDFBaseline::createByType(pb[i - 5]);
    return PDFEnvelope::createByType(pe[i - 7]);
}

AttrPtr cloneOf(AttrPtr a)
{
    if (auto p = boost::dynamic_pointer_cast<PeakWidthModel>(a))  return p->clone();
    if (auto p = boost::dynamic_pointer_cast<PeakProfile>(a))  return p->clone();
    if (auto p = boost::dynamic_pointer_cast<PDFBaseline>(a))  return p->clone();
    return boost::dynamic_pointer_cast<PDFEnvelope>(a)->clone();
}

}   // namespace


VT_PROP(components, "an effective write by name to a component", 40000, 600000)
{
    int ci = c.below(11);
    AttrPtr a = component(ci), b = component(ci);
    int nsteps = c.range(1, 8);
    for (int i = 0; i < nsteps; ++i)
    {
        Table ta, tb;
        componentTable(ta, a.get());
        componentTable(tb, b.get());
        checkNames("component " + vt::str(ci), *a, ta);
        checkNames("component " + vt::str(ci), *b, tb);
        int op = c.below(6);
        if (op == 0)
        {
            // clones have independent values
            AttrPtr a2 = cloneOf(a);
            Table t2;
            componentTable(t2, a2.get());
            checkNames("clone", *a2, t2);
            string r0 = response(a.get());
            VT_CHECK(response(a2.get()) == r0, "clone has different response");
            for (auto& kv : t2)  a2->setDoubleAttr(kv.first, c.pick(kv.second.values));
            VT_CHECK(response(a.get()) == r0, "write to a clone changes the original");
            for (auto& kv : ta)  VT_CHECK(a->getDoubleAttr(kv.first) == b->getDoubleAttr(kv.first), "clone " << kv.first);
            if (c.flag())
            {
                // continue with clones
                a = cloneOf(a);
                b = cloneOf(b);
            }
            c.label("clone");
        }
        else if (op == 1)
        {
            string n = c.pick(allNames());
            if (ta.count(n))  continue;
            string r0 = response(a.get());
            VT_THROWS(a->setDoubleAttr(n, 1.5), DoubleAttributeError, n);
            VT_CHECK(response(a.get()) == r0, "rejected write changes the response");
        }
        else if (!ta.empty())
        {
            vector<string> names;
            for (auto& kv : ta)  names.push_back(kv.first);
            string n = c.pick(names);
            double v = c.pick(ta[n].values);
            if (rough(n) ? false : c.flag())  v = v + c.real(0, 0.5) * 1e-3;
            c.note() << "component " << ci << " " << n << " = " << v << "\n";
            auto tk = [](AttrPtr p) -> diffpy::eventticker::EventTicker {
                if (auto w = boost::dynamic_pointer_cast<PeakWidthModel>(p))  return w->ticker();
                if (auto w = boost::dynamic_pointer_cast<PeakProfile>(p))  return w->ticker();
                return diffpy::eventticker::EventTicker(); };
            diffpy::eventticker::EventTicker ta0 = tk(a);
            double old = a->getDoubleAttr(n);
            a->setDoubleAttr(n, v);
            if (rough(n))
            {
                vt::checkClose(n, ta[n].get(), v, 1e-12, 1e-15);
                vt::checkClose(n, a->getDoubleAttr(n), v, 1e-12, 1e-15);
                b->setDoubleAttr(n, v);
            }
            else
            {
                VT_CHECK(ta[n].get() == v, n);
                VT_CHECK(a->getDoubleAttr(n) == v, n);
                tb[n].set(v);
            }
            if (!vt::close(v, old, 1e-9, 0) && ci < 5)  VT_CHECK(ta0 < tk(a), "effective change of " << n << " leaves the ticker");
            if (v != old)  c.nontrivial();
            c.label(n);
            VT_CHECK(response(a.get()) == response(b.get()), "write of " << n << ": " << response(a.get()) << " vs " << response(b.get()));
        }
    }
}


namespace {

// user defined composite with attributes accessed through every supported
// form of getters and setters
class Node : public Attributes
{
    public:
        double x = 0, y = 0, z = 0, w = 0;
        int gets = 0;
        vector<boost::shared_ptr<Node> > children;
        double getX() const { return x; }
        void setX(double v) { x = v; }
        const double& getY() const { return y; }
        void setY(const double& v) { y = v; }
        const double& getW() const { return w; }
        static double getZ(const Node* n) { return n->z; }
        static void setZ(Node* n, const double& v) { n->z = v; }
        Node(const vector<string>& names)
        {
            if (names[0].size())  registerDoubleAttribute(names[0], this, &Node::getX, &Node::setX);
            if (names[1].size())  registerDoubleAttribute(names[1], this, &Node::getY, &Node::setY);
            if (names[2].size())  registerDoubleAttribute(names[2], this, &Node::getZ, &Node::setZ);
            if (names[3].size())  registerDoubleAttribute(names[3], this, &Node::getW);
        }
        void accept(diffpy::BaseAttributesVisitor& v)
        {
            for (auto& ch : children)  ch->accept(v);
            this->Attributes::accept(v);
        }
        void accept(diffpy::BaseAttributesVisitor& v) const
        {
            for (auto& ch : children)  static_cast<const Node&>(*ch).accept(v);
            this->Attributes::accept(v);
        }
};
typedef boost::shared_ptr<Node> NodePtr;

}   // namespace


VT_PROP(composites, "a composite with both unique and duplicate names", 20000, 500000)
{
    vector<string> pool = {"a", "b", "cc", "d", "e", "f", "g", "h", "i", "j"};
    int n = c.range(1, 3);
    vector<NodePtr> nodes;
    vector<vector<string> > names(n);
    for (int i = 0; i < n; ++i)
    {
        // names within a node are unique
        vector<int> p = c.permutation(pool.size());
        for (int k = 0; k < 4; ++k)  names[i].push_back(c.chance(1, 4) ? "" : pool[p[k]]);
        nodes.push_back(NodePtr(new Node(names[i])));
        c.note() << "node " << i << " " << vt::strv(names[i]) << "\n";
    }
    // the first node holds the others, possibly in a chain
    for (int i = 1; i < n; ++i)
        nodes[c.below(i)]->children.push_back(nodes[i]);
    vector<array<double,4> > val(n);
    for (auto& v : val)  v.fill(0.0);
    for (auto& nd : nodes)  nd->w = 7.5;
    for (auto& v : val)  v[3] = 7.5;
    map<string, vector<pair<int,int> > > idx;
    for (int i = 0; i < n; ++i)
        for (int k = 0; k < 4; ++k)
            if (names[i][k].size())  idx[names[i][k]].push_back(make_pair(i, k));
    bool dup = false, uniq = false;
    for (int s = 0; s < 12; ++s)
    {
        string nm = c.pick(pool);
        double v = s + 0.25;
        Attributes& root = *nodes[0];
        const Attributes& croot = root;
        Out o = attempt([&]() { root.setDoubleAttr(nm, v); });
        if (!idx.count(nm))
        {
            VT_CHECK(o == ATTRERR, "unknown " << nm << " " << o);
            VT_CHECK(attempt([&]() { croot.getDoubleAttr(nm); }) == ATTRERR, nm);
            VT_CHECK(!croot.hasDoubleAttr(nm), nm);
        }
        else if (idx[nm].size() > 1)
        {
            // ambiguous names are refused
            VT_CHECK(o == OTHER, "duplicate " << nm << " " << o);
            VT_CHECK(attempt([&]() { croot.getDoubleAttr(nm); }) == OTHER, nm);
            VT_CHECK(croot.hasDoubleAttr(nm), nm);
            dup = true;
        }
        else
        {
            pair<int,int> ik = idx[nm][0];
            if (ik.second == 3)  VT_CHECK(o == ATTRERR, "read-only " << nm << " " << o);
            else
            {
                VT_CHECK(o == DONE, "write " << nm << " " << o);
                val[ik.first][ik.second] = v;
                uniq = true;
            }
            VT_CHECK(croot.getDoubleAttr(nm) == val[ik.first][ik.second], nm);
        }
        for (int i = 0; i < n; ++i)
        {
            VT_CHECK(nodes[i]->x == val[i][0] && nodes[i]->y == val[i][1] &&
                    nodes[i]->z == val[i][2] && nodes[i]->w == val[i][3], "value of node " << i << " after write to " << nm);
        }
    }
    set<string> en, ew;
    for (auto& kv : idx)
    {
        en.insert(kv.first);
        for (auto& ik : kv.second)  if (ik.second != 3)  ew.insert(kv.first);
    }
    VT_CHECK(nodes[0]->namesOfDoubleAttributes() == en, "names");
    VT_CHECK(nodes[0]->namesOfWritableDoubleAttributes() == ew, "writable names");
    if (dup && uniq)  c.nontrivial();
}
