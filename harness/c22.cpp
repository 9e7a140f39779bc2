// C22 Component registries and envelope sets behave as maps of prototypes
#include "calc.hpp"
#include "pdfref.hpp"
#include <diffpy/srreal/AtomRadiiTable.hpp>
#include <diffpy/srreal/ConstantPeakWidth.hpp>
#include <diffpy/srreal/ConstantRadiiTable.hpp>
#include <diffpy/srreal/CroppedGaussianProfile.hpp>
#include <diffpy/srreal/DebyeWallerPeakWidth.hpp>
#include <diffpy/srreal/GaussianProfile.hpp>
#include <diffpy/srreal/JeongPeakWidth.hpp>
#include <diffpy/srreal/LinearBaseline.hpp>
#include <diffpy/srreal/PDFBaseline.hpp>
#include <diffpy/srreal/PDFEnvelope.hpp>
#include <diffpy/srreal/PeakProfile.hpp>
#include <diffpy/srreal/PeakWidthModel.hpp>
#include <diffpy/srreal/QResolutionEnvelope.hpp>
#include <diffpy/srreal/ScaleEnvelope.hpp>
#include <diffpy/srreal/ScatteringFactorTable.hpp>
#include <diffpy/srreal/SphericalShapeEnvelope.hpp>
#include <diffpy/srreal/StepCutEnvelope.hpp>
#include <diffpy/srreal/ZeroBaseline.hpp>

using namespace std;
using namespace calc;
using namespace diffpy::srreal;

namespace {

// user-defined components -----------------------------------------------------

struct Custom
{
    virtual ~Custom() { }
    string name;
    int serial = 0;
};

#define CUSTOM(cls, base) \
    typename base::SharedPtr create() const override \
    { return typename base::SharedPtr(new cls(this->name, this->serial)); } \
    typename base::SharedPtr clone() const override \
    { return typename base::SharedPtr(new cls(*this)); } \
    const string& type() const override { return this->name; }

template <class B>
struct AttrCustom : public B, public Custom
{
    AttrCustom(const string& n, int s)
    {
        name = n;
        serial = s;
        this->registerDoubleAttribute("payload" + vt::str(s), this, &AttrCustom::getPayload, &AttrCustom::setPayload);
    }
    double getPayload() const { return payload; }
    void setPayload(double v) { payload = v; }
    double payload = 0;
};

struct CProfile : public AttrCustom<PeakProfile>
{
    using AttrCustom::AttrCustom;
    CUSTOM(CProfile, PeakProfile)
    double operator()(double x, double w) const override { return serial; }
    double xboundlo(double) const override { return -serial; }
    double xboundhi(double) const override { return serial; }
};

struct CWidth : public AttrCustom<PeakWidthModel>
{
    using AttrCustom::AttrCustom;
    CUSTOM(CWidth, PeakWidthModel)
    double calculate(const BaseBondGenerator&) const override { return serial; }
    double maxWidth(StructureAdapterPtr, double, double) const override { return serial; }
};

struct CBaseline : public AttrCustom<PDFBaseline>
{
    using AttrCustom::AttrCustom;
    CUSTOM(CBaseline, PDFBaseline)
    double operator()(const double& r) const override { return payload * r; }
};

struct CEnvelope : public AttrCustom<PDFEnvelope>
{
    using AttrCustom::AttrCustom;
    CUSTOM(CEnvelope, PDFEnvelope)
    double operator()(const double& r) const override { return value(serial, payload, r); }
    static double value(int s, double p, double r) { return 1 + p * cos(s + r); }
};

struct CRadii : public AtomRadiiTable, public Custom
{
    CRadii(const string& n, int s) { name = n; serial = s; }
    CUSTOM(CRadii, AtomRadiiTable)
    double standardLookup(const string&) const override { return serial; }
};

struct CFactors : public ScatteringFactorTable, public Custom
{
    CFactors(const string& n, int s, const string& r) : rad(r) { name = n; serial = s; }
    ScatteringFactorTablePtr create() const override
    { return ScatteringFactorTablePtr(new CFactors(name, serial, rad)); }
    ScatteringFactorTablePtr clone() const override { return ScatteringFactorTablePtr(new CFactors(*this)); }
    const string& type() const override { return name; }
    const string& radiationType() const override { return rad; }
    double standardLookup(const string&, double) const override { return serial; }
    string rad;
};

// families ------------------------------------------------------------------

template <class T> string attrDigest(const T& p)
{
    ostringstream o;
    o.precision(17);
    o << p.type();
    for (auto& n : p.namesOfDoubleAttributes())  o << ' ' << n << '=' << p.getDoubleAttr(n);
    if (auto k = dynamic_cast<const Custom*>(&p))  o << " custom " << k->serial;
    return o.str();
}

template <class T> void attrPerturb(Case& c, T& p)
{
    auto names = p.namesOfDoubleAttributes();
    vector<string> v(names.begin(), names.end());
    if (v.empty())  return;
    p.setDoubleAttr(c.pick(v), 0.03125 * c.range(1, 1000));
}

template <class C, class P> P mk() { return P(new C); }

struct ProfileFam
{
    typedef PeakProfile T;
    typedef T::SharedPtr P;
    static vector<pair<string, P(*)()> > builtin()
    { return {{"gaussian", mk<GaussianProfile, P>}, {"croppedgaussian", mk<CroppedGaussianProfile, P>}}; }
    static P custom(const string& n, int s, const string&) { return P(new CProfile(n, s)); }
    static string digest(const T& p) { return attrDigest(p); }
    static void perturb(Case& c, T& p) { attrPerturb(c, p); }
    static string rad(const string&) { return ""; }
    static bool enroll(const P& p) { return p->registerThisType(); }
};

struct WidthFam
{
    typedef PeakWidthModel T;
    typedef T::SharedPtr P;
    static vector<pair<string, P(*)()> > builtin()
    { return {{"constant", mk<ConstantPeakWidth, P>}, {"debye-waller", mk<DebyeWallerPeakWidth, P>},
        {"jeong", mk<JeongPeakWidth, P>}}; }
    static P custom(const string& n, int s, const string&) { return P(new CWidth(n, s)); }
    static string digest(const T& p) { return attrDigest(p); }
    static void perturb(Case& c, T& p) { attrPerturb(c, p); }
    static string rad(const string&) { return ""; }
    static bool enroll(const P& p) { return p->registerThisType(); }
};

struct BaselineFam
{
    typedef PDFBaseline T;
    typedef T::SharedPtr P;
    static vector<pair<string, P(*)()> > builtin()
    { return {{"linear", mk<LinearBaseline, P>}, {"zero", mk<ZeroBaseline, P>}}; }
    static P custom(const string& n, int s, const string&) { return P(new CBaseline(n, s)); }
    static string digest(const T& p) { return attrDigest(p); }
    static void perturb(Case& c, T& p) { attrPerturb(c, p); }
    static string rad(const string&) { return ""; }
    static bool enroll(const P& p) { return p->registerThisType(); }
};

struct EnvelopeFam
{
    typedef PDFEnvelope T;
    typedef T::SharedPtr P;
    static vector<pair<string, P(*)()> > builtin()
    { return {{"scale", mk<ScaleEnvelope, P>}, {"qresolution", mk<QResolutionEnvelope, P>},
        {"stepcut", mk<StepCutEnvelope, P>}, {"sphericalshape", mk<SphericalShapeEnvelope, P>}}; }
    static P custom(const string& n, int s, const string&) { return P(new CEnvelope(n, s)); }
    static string digest(const T& p) { return attrDigest(p); }
    static void perturb(Case& c, T& p) { attrPerturb(c, p); }
    static string rad(const string&) { return ""; }
    static bool enroll(const P& p) { return p->registerThisType(); }
};

struct RadiiFam
{
    typedef AtomRadiiTable T;
    typedef T::SharedPtr P;
    static vector<pair<string, P(*)()> > builtin() { return {{"constant", mk<ConstantRadiiTable, P>}}; }
    static P custom(const string& n, int s, const string&) { return P(new CRadii(n, s)); }
    static string digest(const T& p) { return p.type() + " " + p.toString() + " " + vt::str(p.lookup("Q")); }
    static void perturb(Case& c, T& p)
    {
        ConstantRadiiTable* k = dynamic_cast<ConstantRadiiTable*>(&p);
        if (k && c.flag())  k->setDefault(0.125 * c.range(1, 99));
        else  p.setCustom(c.oneof<const char*>({"C", "O", "Q"}), 0.0625 * c.range(1, 999));
    }
    static string rad(const string&) { return ""; }
    static bool enroll(const P& p) { return p->registerThisType(); }
};

struct FactorFam
{
    typedef ScatteringFactorTable T;
    typedef T::SharedPtr P;
    template <class C> static P lib() { return P(); }
    static P table(const string& tp)
    {
        // concrete classes have no public header data beyond the registry
        static map<string, P> protos;
        if (protos.empty())
            for (auto& n : {"xray", "electronnumber", "neutron", "electron"})  protos[n] = T::createByType(n);
        return protos.at(tp)->create();
    }
    static P x() { return table("xray"); }
    static P en() { return table("electronnumber"); }
    static P n() { return table("neutron"); }
    static P e() { return table("electron"); }
    static vector<pair<string, P(*)()> > builtin()
    { return {{"xray", x}, {"electronnumber", en}, {"neutron", n}, {"electron", e}}; }
    static P custom(const string& nm, int s, const string& r) { return P(new CFactors(nm, s, r)); }
    static string digest(const T& p)
    {
        set<string> v;
        for (auto& k : p.getCustomSymbols())  v.insert(k + ":" + vt::str(p.lookup(k, 2.0)));
        return p.type() + " " + p.radiationType() + " " + vt::strv(v) + " " + vt::str(p.lookup("C", 1.5));
    }
    static void perturb(Case& c, T& p)
    {
        string s = c.oneof<const char*>({"C", "Q", "O"});
        if (c.flag())  p.setCustomAs(s, c.oneof<const char*>({"Na", "Cl", "H"}));
        else  p.setCustomAs(s, "Na", 0.25 * c.range(1, 99), 1.0);
    }
    static string rad(const string& tp)
    { return tp == "xray" ? "X" : tp == "electronnumber" ? "EN" : tp == "neutron" ? "N" : "E"; }
    static bool enroll(const P& p) { return p->registerThisType(); }
};

// peak profile set by type keeps the precision of the earlier one
template <class P> void carry(const P& old, const P& p) { }
void carry(const PeakProfilePtr& old, const PeakProfilePtr& p) { p->setPrecision(old->getPrecision()); }

struct Proto { string type; string digest; };

template <class F>
struct Model
{
    map<string, int> names;         // registered name -> prototype
    vector<Proto> protos;

    map<string, string> aliases() const
    {
        map<string, string> rv;
        for (auto& kv : names)
            if (protos[kv.second].type != kv.first)  rv[kv.first] = protos[kv.second].type;
        return rv;
    }
    set<string> types() const
    {
        set<string> rv;
        for (auto& kv : names)  rv.insert(protos[kv.second].type);
        return rv;
    }
    // expected success
    bool enroll(const string& tp, const string& rad, const string& dig)
    {
        if (names.count(tp))  return false;
        if (!rad.empty() && rad != tp && names.count(rad))  return false;
        names[tp] = protos.size();
        if (!rad.empty())  names[rad] = protos.size();
        protos.push_back({tp, dig});
        return true;
    }
};

template <class F>
Model<F> initial(bool reset)
{
    typedef typename F::T T;
    Model<F> m;
    for (auto& kv : F::builtin())
        m.enroll(kv.first, F::rad(kv.first), F::digest(*kv.second()));
    if (!reset)  return m;
    for (auto& n : T::getRegisteredTypes())  T::deregisterType(n);
    for (auto& kv : T::getAliasedTypes())  T::deregisterType(kv.first);
    VT_CHECK(T::getRegisteredTypes().empty() && T::getAliasedTypes().empty(), "registry is not empty after all types were removed");
    for (auto& kv : F::builtin())  F::enroll(kv.second());
    return m;
}

template <class F>
void checkRegistry(const string& what, const Model<F>& m, const vector<string>& pool)
{
    typedef typename F::T T;
    set<string> got = T::getRegisteredTypes();
    VT_CHECK(got == m.types(), what << ": registered types " << vt::strv(got) << ", expected " << vt::strv(m.types()));
    auto al = T::getAliasedTypes();
    auto am = m.aliases();
    if (al != am)
    {
        ostringstream o;
        for (auto& kv : al)  o << " " << kv.first << "->" << kv.second;
        o << " expected";
        for (auto& kv : am)  o << " " << kv.first << "->" << kv.second;
        vt::fail(what + ": aliases" + o.str());
    }
    for (auto& n : pool)
    {
        bool has = m.names.count(n);
        VT_CHECK(T::isRegisteredType(n) == has, what << ": isRegisteredType " << n);
        if (!has)
        {
            VT_THROWS(T::createByType(n), invalid_argument, what << ": created unknown type " << n);
            continue;
        }
        auto p = T::createByType(n);
        VT_CHECK(p, what << ": null object of " << n);
        const Proto& pr = m.protos[m.names.at(n)];
        VT_CHECK(p->type() == pr.type, what << ": object created as " << n << " has type " << p->type() << ", expected " << pr.type);
        VT_CHECK(F::digest(*p) == pr.digest, what << ": object created as " << n << " is " << F::digest(*p) << ", expected " << pr.digest);
    }
}

template <class F>
void history(Case& c, const char* fam)
{
    typedef typename F::T T;
    typedef typename F::P P;
    // registration at the program start
    static bool first = true;
    vector<string> pool = {"foo", "bar", "gaussian", "Gaussian", "constant", "zero", "X", "xray", "E", "", "a b", "scale"};
    for (auto& kv : F::builtin())  pool.push_back(kv.first);
    if (first)  checkRegistry<F>("at start", initial<F>(false), pool);
    first = false;
    Model<F> m = initial<F>(true);
    checkRegistry<F>("initial registry", m, pool);
    struct Live { P p; string digest; };
    vector<Live> live;
    static int serial = 0;
    serial = 0;
    int n = c.range(1, 14);
    int changed = 0, rejected = 0;
    auto expect = [&](const string& what, bool ok, function<void()> f) {
        bool thrown = false;
        try { f(); }
        catch (logic_error&) { thrown = true; }
        VT_CHECK(thrown == !ok, what << (ok ? " was rejected" : " was accepted"));
        if (ok)  ++changed;
        else  ++rejected;
    };
    for (int i = 0; i < n; ++i)
    {
        string what;
        switch (c.below(6))
        {
            case 0: case 1:
            {
                P p;
                string rad;
                auto bi = F::builtin();
                if (c.chance(1, 3))
                {
                    auto kv = c.pick(bi);
                    p = kv.second();
                    rad = F::rad(kv.first);
                }
                else
                {
                    string tp = c.pick(pool);
                    if (!F::rad("xray").empty())
                    {
                        rad = c.pick(pool);
                        if (rad.empty())  rad = "R";
                    }
                    p = F::custom(tp, ++serial, rad);
                }
                string dig = F::digest(*p);
                if (c.chance(1, 3))
                {
                    F::perturb(c, *p);
                    c.label("registered a changed object");
                }
                what = "register '" + p->type() + "' '" + rad + "'";
                c.note() << what << "\n";
                Model<F> m1 = m;
                bool ok = m.enroll(p->type(), rad, dig);
                expect(what, ok, [&]() { F::enroll(p); });
                if (c.flag())
                {
                    F::perturb(c, *p);
                    live.push_back({p, F::digest(*p)});
                }
                break;
            }
            case 2: case 3:
            {
                string tp = c.pick(pool), al = c.pick(pool);
                what = "alias '" + tp + "' '" + al + "'";
                c.note() << what << "\n";
                bool ok = m.names.count(tp) && (!m.names.count(al) || m.names[al] == m.names[tp]);
                expect(what, ok, [&]() { T::aliasType(tp, al); });
                if (ok)
                {
                    if (m.protos[m.names[tp]].type != tp)  c.label("alias of an alias");
                    m.names[al] = int(m.names[tp]);
                }
                break;
            }
            case 4:
            {
                string tp = c.pick(pool);
                what = "deregister '" + tp + "'";
                c.note() << what << "\n";
                int cnt = 0;
                if (m.names.count(tp))
                {
                    int id = m.names[tp];
                    for (auto ii = m.names.begin(); ii != m.names.end();)
                    {
                        if (ii->second == id)  ii = m.names.erase(ii), ++cnt;
                        else  ++ii;
                    }
                }
                int got = T::deregisterType(tp);
                VT_CHECK(got == cnt, what << " returned " << got << ", expected " << cnt);
                if (cnt)  ++changed;
                break;
            }
            default:
            {
                if (!live.empty() && c.flag())
                {
                    auto& x = live[c.below(live.size())];
                    what = "change of an object of type " + x.p->type();
                    F::perturb(c, *x.p);
                    x.digest = F::digest(*x.p);
                }
                else
                {
                    string tp = c.pick(pool);
                    what = "create '" + tp + "'";
                    if (m.names.count(tp))
                    {
                        P p = T::createByType(tp);
                        F::perturb(c, *p);
                        live.push_back({p, F::digest(*p)});
                        if (c.flag())
                        {
                            P q = p->create();
                            VT_CHECK(F::digest(*q) == m.protos[m.names[tp]].digest, "create of a changed object is " << F::digest(*q));
                            q = p->clone();
                            VT_CHECK(F::digest(*q) == F::digest(*p), "clone differs: " << F::digest(*q) << " of " << F::digest(*p));
                        }
                    }
                }
                c.note() << what << "\n";
            }
        }
        checkRegistry<F>(what, m, pool);
        for (auto& x : live)
            VT_CHECK(F::digest(*x.p) == x.digest, what << ": existing object is " << F::digest(*x.p) << ", was " << x.digest);
    }
    c.label(fam);
    if (changed >= 2 && rejected >= 1)  c.nontrivial();
    if (!live.empty())  c.label("objects alive");
}

}   // namespace


VT_PROP(registry, "at least 2 accepted changes and a rejected one", 40000, 1000000)
{
    switch (c.below(6))
    {
        case 0: return history<ProfileFam>(c, "profile");
        case 1: return history<WidthFam>(c, "width");
        case 2: return history<BaselineFam>(c, "baseline");
        case 3: return history<EnvelopeFam>(c, "envelope");
        case 4: return history<RadiiFam>(c, "radii");
        default: return history<FactorFam>(c, "factors");
    }
}


// envelope sets ---------------------------------------------------------------

namespace {

struct Env { PDFEnvelopePtr p; double par; };

double envval(const Env& e, double r)
{
    if (auto k = dynamic_cast<const CEnvelope*>(e.p.get()))  return CEnvelope::value(k->serial, e.par, r);
    pdfref::Envelopes x;
    x[e.p->type()] = e.par;
    return pdfref::envelope(x, r);
}

string envAttr(const PDFEnvelope& e)
{
    if (auto k = dynamic_cast<const CEnvelope*>(&e))  return "payload" + vt::str(k->serial);
    return pdfref::envattr(e.type());
}

double envdef(const string& tp) { return tp == "scale" ? 1 : 0; }

struct Owner
{
    PDFEnvelopeOwner bare;
    PQPtr pq;
    PDFEnvelopeOwner* get()
    {
        if (!pq)  return &bare;
        if (auto p = boost::dynamic_pointer_cast<PDFCalculator>(pq))  return p.get();
        return dynamic_cast<PDFEnvelopeOwner*>(pq.get());
    }
    const PDFEnvelopeOwner* cget() { return get(); }
};

}   // namespace


VT_PROP(envelopes, "at least 3 changes and 2 envelopes with effect at the end", 40000, 800000)
{
    initial<EnvelopeFam>(true);
    // custom types, one of them registered under an alias
    PDFEnvelope::aliasType("sphericalshape", "sphere");
    PDFEnvelopePtr foo0(new CEnvelope("foo", 7));
    foo0->registerThisType();
    PDFEnvelope::aliasType("foo", "fooalias");
    map<string, string> canon = {{"scale", "scale"}, {"qresolution", "qresolution"}, {"stepcut", "stepcut"},
        {"sphericalshape", "sphericalshape"}, {"sphere", "sphericalshape"}, {"foo", "foo"}, {"fooalias", "foo"}};
    const vector<string> pool = {"scale", "qresolution", "stepcut", "sphericalshape", "sphere", "foo", "fooalias",
        "bar", "", "Scale", "scale "};
    const int nown = c.range(1, 2);
    vector<Owner> own(nown);
    vector<map<string, Env> > ref(nown);
    // parameters belong to objects, which may be shared
    map<PDFEnvelope*, double> par;
    for (int k = 0; k < nown; ++k)
    {
        int kd = c.below(3);
        if (kd)
        {
            own[k].pq = make(kd == 1 ? PDF : DEBYE);
            for (auto& n : {"scale", "qresolution"})
            {
                ref[k][n].p = own[k].get()->getEnvelopeByType(n);
                par[ref[k][n].p.get()] = envdef(n);
            }
            c.label(kd == 1 ? "PDF" : "Debye");
        }
        else  c.label("bare owner");
    }
    vector<PDFEnvelopePtr> objs;        // objects known to the user
    int serial = 10;
    int nchg = 0;
    auto check = [&](const string& what) {
        for (int k = 0; k < nown; ++k)
        {
            PDFEnvelopeOwner& o = *own[k].get();
            set<string> e;
            for (auto& kv : ref[k])  e.insert(kv.first);
            VT_CHECK(o.usedEnvelopeTypes() == e, what << ": envelopes are " << vt::strv(o.usedEnvelopeTypes()) << ", expected " << vt::strv(e));
            for (auto& n : pool)
            {
                if (!e.count(n))
                {
                    VT_THROWS(o.getEnvelopeByType(n), invalid_argument, what << ": got missing " << n);
                    VT_THROWS(own[k].cget()->getEnvelopeByType(n), invalid_argument, what << ": got missing " << n);
                    continue;
                }
                VT_CHECK(o.getEnvelopeByType(n) == ref[k][n].p, what << ": another object under " << n);
                VT_CHECK(own[k].cget()->getEnvelopeByType(n) == ref[k][n].p, what << ": another object under " << n);
            }
            for (auto& kv : ref[k])
            {
                Env& x = kv.second;
                x.par = par[x.p.get()];
                VT_CHECK(x.p->getDoubleAttr(envAttr(*x.p)) == x.par, what << ": " << kv.first << " changed to " << x.p->getDoubleAttr(envAttr(*x.p)) << " from " << x.par);
            }
            if (own[k].pq)
                for (auto& n : {"scale", "qdamp", "stepcut", "spdiameter", "payload7"})
                {
                    const Env* f = 0;
                    for (auto& kv : ref[k])  if (envAttr(*kv.second.p) == n)  f = &kv.second;
                    VT_CHECK(own[k].pq->hasDoubleAttr(n) == (f != 0), what << ": calculator attribute " << n);
                    if (f)  VT_CHECK(own[k].pq->getDoubleAttr(n) == f->par, what << ": calculator attribute " << n);
                }
            QuantityType x, y, z;
            int np = 5;
            for (int i = 0; i < np; ++i)
            {
                x.push_back(i == 0 ? 0.0 : 1.37 * i * i);
                y.push_back(i == 3 ? 0.0 : 0.5 * i - 1.25);
                double v = y.back();
                for (auto& kv : ref[k])  v *= envval(kv.second, x.back());
                z.push_back(v);
            }
            QuantityType g = o.applyEnvelopes(x, y);
            vt::checkCloseSeq(what + ": applyEnvelopes", g, z, 1e-12, 1e-14);
            VT_CHECK(o.applyEnvelopes(QuantityType(), QuantityType()).empty(), "empty");
        }
    };
    check("start");
    int n = c.range(1, 20);
    for (int i = 0; i < n; ++i)
    {
        int k = c.below(nown);
        PDFEnvelopeOwner& o = *own[k].get();
        auto& r = ref[k];
        string what;
        switch (c.below(13))
        {
            case 0: case 1:
            {
                string tp = c.pick(pool);
                what = "addByType '" + tp + "'";
                if (!canon.count(tp))
                {
                    VT_THROWS(o.addEnvelopeByType(tp), invalid_argument, what);
                    break;
                }
                o.addEnvelopeByType(tp);
                string t = canon[tp];
                PDFEnvelopePtr old = r.count(t) ? r[t].p : PDFEnvelopePtr();
                PDFEnvelopePtr p = o.getEnvelopeByType(t);
                VT_CHECK(p && p != old && !par.count(p.get()), what << ": object is not new");
                VT_CHECK(p->type() == t, what << ": type " << p->type());
                if (old)  c.label("replaced"), objs.push_back(old);
                par[p.get()] = envdef(t);
                r[t].p = p;
                objs.push_back(p);
                ++nchg;
                break;
            }
            case 2: case 3:
            {
                PDFEnvelopePtr p;
                if (!objs.empty() && c.flag())
                {
                    p = c.pick(objs);
                    c.label("same object added again");
                }
                else
                {
                    string tp = c.oneof<const char*>({"scale", "qresolution", "stepcut", "sphericalshape", "foo", "unregistered", ""});
                    p = canon.count(tp) ? PDFEnvelope::createByType(tp) : PDFEnvelopePtr(new CEnvelope(tp, ++serial));
                    par[p.get()] = canon.count(tp) ? envdef(tp) : 0;
                    objs.push_back(p);
                }
                what = "add " + p->type();
                o.addEnvelope(p);
                if (r.count(p->type()))  objs.push_back(r[p->type()].p);
                r[p->type()].p = p;
                ++nchg;
                break;
            }
            case 4:
            {
                what = "add null";
                VT_THROWS(o.addEnvelope(PDFEnvelopePtr()), invalid_argument, what);
                break;
            }
            case 5:
            {
                PDFEnvelopePtr p;
                if (!r.empty() && c.chance(3, 4))
                {
                    auto ii = r.begin();
                    advance(ii, c.below(r.size()));
                    p = ii->second.p;
                }
                else if (!objs.empty() && c.chance(3, 4))  p = c.pick(objs);
                what = "pop object " + (p ? p->type() : string("null"));
                o.popEnvelope(p);
                if (p && r.count(p->type()) && r[p->type()].p == p)
                {
                    objs.push_back(p);
                    r.erase(p->type());
                    ++nchg;
                }
                break;
            }
            case 6:
            {
                string tp = c.pick(pool);
                what = "popByType '" + tp + "'";
                o.popEnvelopeByType(tp);
                if (r.count(tp))
                {
                    objs.push_back(r[tp].p);
                    ++nchg;
                }
                r.erase(tp);
                break;
            }
            case 7:
                if (!c.chance(1, 4))  break;
                what = "clear";
                for (auto& kv : r)  objs.push_back(kv.second.p);
                o.clearEnvelopes();
                r.clear();
                ++nchg;
                break;
            default:
            {
                if (r.empty())  break;
                auto ii = r.begin();
                advance(ii, c.below(r.size()));
                PDFEnvelopePtr p = ii->second.p;
                double v = c.oneof({0.25, 0.0, 1.5, 7.0, 20.0});
                what = "set " + ii->first + " " + vt::str(v);
                if (own[k].pq && c.flag())  own[k].pq->setDoubleAttr(envAttr(*p), v);
                else  p->setDoubleAttr(envAttr(*p), v);
                par[p.get()] = v;
                ++nchg;
            }
        }
        c.note() << k << " " << what << "\n";
        check(what);
    }
    // calculated PDF
    int neff = 0;
    for (int k = 0; k < nown; ++k)
    {
        for (auto& kv : ref[k])
            if (envval(kv.second, 1.37) != 1 || envval(kv.second, 5.48) != 1)  ++neff;
        if (!own[k].pq || !c.chance(1, 3))  continue;
        static StructureAdapterPtr stru;
        if (!stru)
        {
            AtomicStructureAdapterPtr a(new AtomicStructureAdapter);
            for (int i = 0; i < 4; ++i)
            {
                Atom at;
                at.atomtype = i % 2 ? "O" : "C";
                at.xyz_cartn = R3::Vector(0.9 * i, 0.3 * i * i, i % 2);
                for (int j = 0; j < 3; ++j)  at.uij_cartn(j, j) = 0.01;
                a->append(at);
            }
            stru = a;
        }
        PairQuantity& q = *own[k].pq;
        q.setRmax(6);
        q.setDoubleAttr("rstep", 0.1);
        auto pdf = [&]() {
            if (auto p = dynamic_cast<PDFCalculator*>(&q))  return p->getPDF();
            return dynamic_cast<DebyePDFCalculator&>(q).getPDF();
        };
        PDFCalculator* pc = dynamic_cast<PDFCalculator*>(&q);
        if (pc)  pc->setQmax(0);
        else  q.setDoubleAttr("qmax", 12);
        q.eval(stru);
        QuantityType g = pdf();
        QuantityType x = pc ? pc->getRgrid() : dynamic_cast<DebyePDFCalculator&>(q).getRgrid();
        own[k].get()->clearEnvelopes();
        QuantityType g0 = pdf();
        VT_CHECK(x.size() == g.size() && g0.size() == g.size() && g.size() > 50, "sizes");
        for (size_t i = 0; i < x.size(); ++i)
            for (auto& kv : ref[k])  g0[i] *= envval(kv.second, x[i]);
        vt::checkCloseSeq("PDF with envelopes", g, g0, 1e-11, 1e-13);
        c.label("PDF compared");
    }
    if (nchg >= 3 && neff >= 2)  c.nontrivial();
}


// components set by name ------------------------------------------------------

namespace {

template <class F>
struct Slot
{
    typedef typename F::P P;
    function<void(const string&)> byType;
    function<void(const P&)> set;
    function<P()> get;
};

template <class F>
void slotHistory(Case& c, vector<Slot<F> > slots, int& nset, int& nrej)
{
    typedef typename F::T T;
    typedef typename F::P P;
    Model<F> m = initial<F>(true);
    vector<string> pool = {"foo", "fooalias", "bar", "", "xyz", "Constant", "none", "gaussian", "zero"};
    for (auto& kv : F::builtin())  pool.push_back(kv.first);
    // one custom type with an alias, and an alias of a standard type
    P f = F::custom("foo", 3, "FR");
    F::enroll(f);
    m.enroll("foo", F::rad("xray").empty() ? "" : "FR", F::digest(*f));
    T::aliasType("foo", "fooalias");
    m.names["fooalias"] = int(m.names["foo"]);
    string std0 = F::builtin()[0].first;
    T::aliasType(std0, "bar");
    m.names["bar"] = int(m.names[std0]);
    vector<P> cur;
    vector<string> dig;
    set<T*> seen;
    vector<P> keep;
    for (auto& s : slots)
    {
        cur.push_back(s.get());
        dig.push_back(cur.back() ? F::digest(*cur.back()) : "");
        keep.push_back(cur.back());
        VT_CHECK(!cur.back() || seen.insert(cur.back().get()).second, "calculators share a component");
    }
    int n = c.range(2, 8);
    for (int i = 0; i < n; ++i)
    {
        int k = c.below(slots.size());
        string what;
        switch (c.below(4))
        {
            case 0: case 1:
            {
                string tp = c.pick(pool);
                what = "set by type '" + tp + "'";
                c.note() << k << " " << what << "\n";
                if (m.names.count(tp))
                {
                    slots[k].byType(tp);
                    P p = slots[k].get();
                    VT_CHECK(p, what << ": no object");
                    VT_CHECK(seen.insert(p.get()).second, what << ": object is not new");
                    keep.push_back(p);
                    const Proto& pr = m.protos[m.names[tp]];
                    P e = T::createByType(tp);
                    VT_CHECK(F::digest(*e) == pr.digest, what << ": created " << F::digest(*e));
                    if (cur[k])  carry(cur[k], e);
                    VT_CHECK(p->type() == pr.type && F::digest(*p) == F::digest(*e), what << ": got " << F::digest(*p) << ", expected " << F::digest(*e));
                    cur[k] = p;
                    dig[k] = F::digest(*p);
                    ++nset;
                }
                else
                {
                    VT_THROWS(slots[k].byType(tp), invalid_argument, what);
                    ++nrej;
                }
                break;
            }
            case 2:
            {
                if (c.chance(1, 4))
                {
                    what = "set null";
                    VT_THROWS(slots[k].set(P()), invalid_argument, what);
                    ++nrej;
                    break;
                }
                what = "set object";
                P p = c.flag() ? c.pick(keep) : F::custom("unregistered", 4, "UR");
                if (!p)  break;
                slots[k].set(p);
                cur[k] = p;
                dig[k] = F::digest(*p);
                keep.push_back(p);
                seen.insert(p.get());
                ++nset;
                break;
            }
            default:
                if (!cur[k])  break;
                what = "change";
                F::perturb(c, *cur[k]);
                for (size_t j = 0; j < cur.size(); ++j)
                    if (cur[j] == cur[k])  dig[j] = F::digest(*cur[k]);
        }
        for (size_t j = 0; j < slots.size(); ++j)
        {
            P p = slots[j].get();
            VT_CHECK(p == cur[j], what << ": another object in calculator " << j);
            if (p)  VT_CHECK(F::digest(*p) == dig[j], what << ": component of calculator " << j << " is " << F::digest(*p) << ", expected " << dig[j]);
        }
    }
}

}   // namespace


VT_PROP(components, "at least 2 components were set and a request was rejected", 100000, 2000000)
{
    PDFCalculator p0, p1;
    DebyePDFCalculator d;
    OverlapCalculator o0, o1;
    int nset = 0, nrej = 0;
#define SLOT(F, o, X) Slot<F>{[&](const string& t) { o.set##X##ByType(t); }, \
    [&](const F::P& p) { o.set##X(p); }, [&]() { return o.get##X(); }}
    switch (c.below(5))
    {
        case 0:
            c.label("profile");
            slotHistory<ProfileFam>(c, {SLOT(ProfileFam, p0, PeakProfile), SLOT(ProfileFam, p1, PeakProfile)}, nset, nrej);
            break;
        case 1:
            c.label("width");
            slotHistory<WidthFam>(c, {SLOT(WidthFam, p0, PeakWidthModel), SLOT(WidthFam, d, PeakWidthModel)}, nset, nrej);
            break;
        case 2:
            c.label("baseline");
            slotHistory<BaselineFam>(c, {SLOT(BaselineFam, p0, Baseline), SLOT(BaselineFam, p1, Baseline)}, nset, nrej);
            break;
        case 3:
            c.label("radii");
            slotHistory<RadiiFam>(c, {SLOT(RadiiFam, o0, AtomRadiiTable), SLOT(RadiiFam, o1, AtomRadiiTable)}, nset, nrej);
            break;
        default:
            c.label("factors");
            slotHistory<FactorFam>(c, {SLOT(FactorFam, p0, ScatteringFactorTable), SLOT(FactorFam, d, ScatteringFactorTable)}, nset, nrej);
            // radiation type follows the table
            VT_CHECK(p0.getRadiationType() == p0.getScatteringFactorTable()->radiationType(), "radiation type");
            VT_CHECK(d.getRadiationType() == d.getScatteringFactorTable()->radiationType(), "radiation type");
    }
    if (nset >= 2 && nrej >= 1)  c.nontrivial();
}
