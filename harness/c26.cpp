// C26 Evaluation depends only on current configuration and structure
#include "calc.hpp"
#include <diffpy/srreal/BVParametersTable.hpp>
#include <diffpy/srreal/ConstantRadiiTable.hpp>
#include <diffpy/srreal/AtomRadiiTable.hpp>

using namespace std;
using namespace calc;
using namespace diffpy::srreal;

namespace {

// Drop the longer pair range that the Debye sum may keep from earlier settings.
// Use the same Q step mode; a custom step is given up for good when the range
// ever needed a finer one.
void forgetRange(PairQuantity& q, const PairQuantity& used)
{
    if (kindOf(q) != DEBYE)  return;
    DebyePDFCalculator& d = dynamic_cast<DebyePDFCalculator&>(q);
    const double rmax = d.getRmax();
    d.setRmax(1000);
    d.getDoubleAttr("extendedrmax");
    d.setRmax(rmax);
    d.getDoubleAttr("extendedrmax");
    const DebyePDFCalculator& u = dynamic_cast<const DebyePDFCalculator&>(used);
    if (u.isOptimumQstep())  d.setOptimumQstep();
    else  d.setQstep(u.getQstep());
}


// Compare results of a used calculator with those of a fresh one.  The Debye
// sum may keep a pair range that is up to 50 steps longer.
bool compareFresh(const string& what, const PairQuantity& used,
        const PairQuantity& fresh, Scales* hist)
{
    Results a = results(used), b = results(fresh);
    if (kindOf(used) == DEBYE)
    {
        double ru = a.arr["extendedrmax"].at(0);
        double rf = b.arr["extendedrmax"].at(0);
        double dr = used.getDoubleAttr("rstep");
        if (ru < rf - 1e-6 || ru >= rf + 49.5 * dr)
            vt::fail(what + ": extendedrmax " + vt::str(ru) + " of the used calculator, fresh " + vt::str(rf));
        if (fabs(ru - rf) > 1e-6)
        {
            // grids do not depend on the pair range
            if (a.arr["rgrid"].size() != b.arr["rgrid"].size())  vt::fail(what + ": rgrid");
            return false;
        }
    }
    compareResults(what, a, b, 1e-7, 1e-9, hist);
    return true;
}


void reuse(Case& c, Kind k, int maxsteps)
{
    GenOpts so = structureOpts(k);
    so.maxsites = c.oneof({6, 4, 9});
    so.maxcell = 16;
    CfgOpts co;
    co.types = typePool(so);
    co.mindebyeprec = 1e-12;
    co.typemasks = c.flag();
    co.pairmasks = !co.typemasks;
    PQPtr used = make(k);
    sr::PQEvaluatorType et = (supportsOptimized(k) && c.flag()) ? sr::OPTIMIZED : sr::BASIC;
    used->setEvaluatorType(et);
    vector<Op> ops;
    auto configure = [&](const Op& o) {
        ops.push_back(o);
        o.fn(*used);
        c.note() << o.desc << "\n";
    };
    c.note() << kindnames[k] << (et == sr::BASIC ? " BASIC\n" : " OPTIMIZED\n");
    configure(initialConfig(c, k, co));
    ref::Model m = genModel(c, so);
    c.note() << m.str() << "\n";
    StructureAdapterPtr cur = ref::build(m);
    Scales hist;
    // a bystander with its own structure must keep its results
    Kind kb = Kind(c.below(NKINDS));
    PQPtr bystander = make(kb);
    StructureAdapterPtr bstru = ref::build(genModel(c, structureOpts(kb)));
    initialConfig(c, kb, co).fn(*bystander);
    bystander->eval(bstru);
    Results rby = results(*bystander, true);
    int neval = 0, nchanges = 0, ncompared = 0;
    bool fresheval = false;     // results belong to the configuration
    auto evaluate = [&]() {
        bool noarg = used->getStructure() == cur && c.flag();
        if (noarg)  used->eval();
        else  used->eval(cur);
        c.note() << (noarg ? "eval()\n" : "eval(stru)\n");
        ++neval;
        fresheval = true;
        PQPtr fresh = make(k);
        fresh->setEvaluatorType(sr::BASIC);
        for (Op& o : ops)  o.fn(*fresh);
        forgetRange(*fresh, *used);
        fresh->eval(ref::build(m));
        if (compareFresh("evaluation " + vt::str(neval), *used, *fresh, &hist))  ++ncompared;
        else  c.label("longer Debye range kept");
    };
    evaluate();
    int nsteps = c.range(1, maxsteps);
    for (int i = 0; i < nsteps; ++i)
    {
        int op = c.below(12);
        if (op <= 2)
        {
            fresheval = false;
            c.note() << "edit: " << mutateModel(c, m, so) << "\n";
            if (c.flag() && editInPlace(cur, m, c.flag()))
            {
                c.note() << "in place\n";
                c.label("structure changed in place");
            }
            else  cur = ref::build(m);
            ++nchanges;
        }
        else if (op == 3)
        {
            m = genModel(c, so);
            c.note() << m.str() << "\n";
            cur = ref::build(m);
            ++nchanges;
        }
        else if (op == 4)
        {
            used->setStructure(cur);
            c.note() << "setStructure\n";
        }
        else if (op == 5)
        {
            if (!fresheval)  continue;
            results(*used);
            c.note() << "query\n";
        }
        else if (op == 6)
        {
            used->setEvaluatorType(et == sr::BASIC && supportsOptimized(k) ? sr::OPTIMIZED : sr::BASIC);
            et = used->getEvaluatorType();
            c.note() << "evaluator " << int(et) << "\n";
        }
        else if (op == 7 && k != COUNTER)
        {
            // null structure, then the current one
            used->eval(StructureAdapterPtr());
            c.note() << "eval(null)\n";
        }
        else
        {
            co.nsites = max(1, int(m.sites.size()));
            configure(genConfigOp(c, k, co));
            fresheval = false;
            ++nchanges;
            c.label("configuration change");
        }
        if (c.chance(2, 3))  evaluate();
    }
    evaluate();
    compareResults("bystander", results(*bystander, true), rby, 0, 0);
    if (nchanges >= 2 && ncompared >= 3)  c.nontrivial();
}


// components shared by two calculators

void copyAttributes(const diffpy::Attributes& src, diffpy::Attributes& dst)
{
    for (const string& n : src.namesOfWritableDoubleAttributes())
        dst.setDoubleAttr(n, src.getDoubleAttr(n));
}


void shared(Case& c, Kind k)
{
    GenOpts so = structureOpts(k);
    so.maxsites = 5;
    so.maxcell = 12;
    CfgOpts co;
    co.types = typePool(so);
    co.masks = false;
    co.mindebyeprec = 1e-12;
    PQPtr q[2] = {make(k), make(k)};
    Op ini[2];
    StructureAdapterPtr stru[2];
    for (int i = 0; i < 2; ++i)
    {
        ini[i] = initialConfig(c, k, co);
        ini[i].fn(*q[i]);
        ref::Model m = genModel(c, so);
        stru[i] = ref::build(m);
        c.note() << i << ": " << ini[i].desc << "\n" << m.str() << "\n";
    }
    if (c.chance(1, 3))
    {
        stru[1] = stru[0];
        c.note() << "same structure object\n";
    }
    // share components
    PeakWidthModelPtr pwm;
    PeakProfilePtr prof;
    ScatteringFactorTablePtr sft;
    PDFEnvelopePtr env;
    BVParametersTablePtr bvt;
    AtomRadiiTablePtr radii;
    if (k == PDF || k == DEBYE)
    {
        pwm = PeakWidthModel::createByType(c.oneof<const char*>({"jeong", "constant"}));
        if (pwm->hasDoubleAttr("width"))  pwm->setDoubleAttr("width", 0.2);
        sft = ScatteringFactorTable::createByType(c.oneof<const char*>({"xray", "neutron"}));
        env = PDFEnvelope::createByType(c.oneof<const char*>({"scale", "qresolution", "sphericalshape", "stepcut"}));
        for (auto& p : q)
        {
            dynamic_cast<PeakWidthModelOwner&>(*p).setPeakWidthModel(pwm);
            dynamic_cast<ScatteringFactorTableOwner&>(*p).setScatteringFactorTable(sft);
            dynamic_cast<PDFEnvelopeOwner&>(*p).addEnvelope(env);
        }
        c.note() << "shared " << pwm->type() << ", " << sft->type() << ", " << env->type();
    }
    if (k == PDF)
    {
        prof = PeakProfile::createByType(c.oneof<const char*>({"gaussian", "croppedgaussian"}));
        prof->setPrecision(1e-9);
        for (auto& p : q)  dynamic_cast<PDFCalculator&>(*p).setPeakProfile(prof);
        c.note() << ", " << prof->type();
    }
    if (k == BVS)
    {
        bvt.reset(new BVParametersTable);
        for (auto& p : q)  dynamic_cast<BVSCalculator&>(*p).setBVParamTable(bvt);
    }
    if (k == OVERLAP)
    {
        radii.reset(new ConstantRadiiTable);
        for (const string& t : co.types)  radii->setCustom(t, 1.0);
        for (auto& p : q)  dynamic_cast<OverlapCalculator&>(*p).setAtomRadiiTable(radii);
    }
    c.note() << "\n";
    auto fresh = [&](int i) {
        PQPtr f = make(k);
        f->setEvaluatorType(sr::BASIC);
        ini[i].fn(*f);
        if (pwm)
        {
            PeakWidthModelPtr p = PeakWidthModel::createByType(pwm->type());
            copyAttributes(*pwm, *p);
            dynamic_cast<PeakWidthModelOwner&>(*f).setPeakWidthModel(p);
        }
        if (env)
        {
            PDFEnvelopePtr p = PDFEnvelope::createByType(env->type());
            copyAttributes(*env, *p);
            dynamic_cast<PDFEnvelopeOwner&>(*f).addEnvelope(p);
        }
        if (sft)  dynamic_cast<ScatteringFactorTableOwner&>(*f).setScatteringFactorTable(sft->clone());
        if (prof)
        {
            PeakProfilePtr p = PeakProfile::createByType(prof->type());
            p->setPrecision(prof->getPrecision());
            dynamic_cast<PDFCalculator&>(*f).setPeakProfile(p);
        }
        if (bvt)
        {
            BVParametersTablePtr t(new BVParametersTable);
            for (const BVParam& bp : bvt->getAllCustom())  t->setCustom(bp);
            for (const string& s : co.types)  t->setAtomValence(s, bvt->getAtomValence(s));
            dynamic_cast<BVSCalculator&>(*f).setBVParamTable(t);
        }
        if (radii)
        {
            AtomRadiiTablePtr t(new ConstantRadiiTable);
            for (const string& s : co.types)  t->setCustom(s, radii->lookup(s));
            dynamic_cast<OverlapCalculator&>(*f).setAtomRadiiTable(t);
        }
        forgetRange(*f, *q[i]);
        f->eval(stru[i]);
        return f;
    };
    Scales hist[2];
    int ne[2] = {0, 0}, nch = 0;
    auto evaluate = [&](int i) {
        q[i]->eval(stru[i]);
        PQPtr f = fresh(i);
        compareFresh("calculator " + vt::str(i), *q[i], *f, &hist[i]);
        ++ne[i];
    };
    evaluate(0);
    evaluate(1);
    int nsteps = c.range(2, 8);
    for (int s = 0; s < nsteps; ++s)
    {
        int i = c.below(2);
        if (c.chance(2, 5))
        {
            // evaluation of one calculator leaves the other alone
            Results other;
            other = results(*q[1 - i], true);
            c.note() << "eval " << i << "\n";
            evaluate(i);
            compareResults("other calculator", results(*q[1 - i], true), other, 0, 0);
            continue;
        }
        ++nch;
        string a = c.pick(co.types);
        if (k == BVS)
        {
            int v = c.oneof({2, -2, 0, 1});
            switch (c.below(3))
            {
                case 0:
                    bvt->setAtomValence(a, v);
                    c.note() << "setAtomValence " << a << " " << v << "\n";
                    break;
                case 1:
                    bvt->setCustom("Na", 1, "Cl", -1, 1.9 + 0.1 * v, 0.37);
                    c.note() << "setCustom Na Cl " << v << "\n";
                    break;
                default:
                    bvt->resetAll();
                    c.note() << "resetAll\n";
            }
        }
        else if (k == OVERLAP)
        {
            double r = c.oneof({0.5, 1.0, 1.5, 0.0});
            radii->setCustom(a, r);
            c.note() << "radius " << a << " " << r << "\n";
        }
        else
        {
            switch (c.below(5))
            {
                case 0:
                {
                    vector<string> names;
                    for (const string& n : pwm->namesOfWritableDoubleAttributes())  names.push_back(n);
                    sort(names.begin(), names.end());
                    string n = c.pick(names);
                    double v = 0.01 * c.range(1, 20);
                    bool direct = c.flag();
                    if (direct)  pwm->setDoubleAttr(n, v);
                    else  q[i]->setDoubleAttr(n, v);
                    c.note() << (direct ? "model " : "through calculator ") << n << " " << v << "\n";
                    break;
                }
                case 1:
                {
                    vector<string> names;
                    for (const string& n : env->namesOfWritableDoubleAttributes())  names.push_back(n);
                    string n = c.pick(names);
                    double v = c.oneof({0.5, 2.0, 1.3});
                    bool direct = c.flag();
                    if (direct)  env->setDoubleAttr(n, v);
                    else  q[i]->setDoubleAttr(n, v);
                    c.note() << (direct ? "envelope " : "through calculator ") << n << " " << v << "\n";
                    break;
                }
                case 2:
                case 3:
                {
                    double v = c.oneof({2.0, 7.5, 1.0});
                    int w = c.below(3);
                    if (w == 0)  sft->setCustomAs(a, a, v);
                    else if (w == 1)  sft->setCustomAs(a, c.pick(co.types));
                    else  sft->resetCustom(a);
                    c.note() << "table " << w << " " << a << " " << v << "\n";
                    break;
                }
                default:
                    if (prof)
                    {
                        double v = c.oneof({1e-9, 1e-10, 1e-7});
                        prof->setPrecision(v);
                        c.note() << "precision " << v << "\n";
                    }
            }
        }
        if (c.flag())  { c.note() << "eval " << i << "\n"; evaluate(i); }
        if (c.flag())  { c.note() << "eval " << 1 - i << "\n"; evaluate(1 - i); }
    }
    evaluate(0);
    evaluate(1);
    c.label(string("shared components of ") + kindnames[k]);
    if (nch >= 2 && ne[0] > 1 && ne[1] > 1)  c.nontrivial();
}

// calculators made by copy construction and assignment

template <class T>
PQPtr copyAs(const PQPtr& src, const PQPtr& target)
{
    const T& s = dynamic_cast<const T&>(*src);
    if (!target)  return boost::make_shared<T>(s);
    dynamic_cast<T&>(*target) = s;
    return target;
}


PQPtr copyCalculator(const PQPtr& src, const PQPtr& target)
{
    switch (kindOf(*src))
    {
        case PDF:  return copyAs<PDFCalculator>(src, target);
        case DEBYE:  return copyAs<DebyePDFCalculator>(src, target);
        case BOND:  return copyAs<BondCalculator>(src, target);
        case BVS:  return copyAs<BVSCalculator>(src, target);
        case OVERLAP:  return copyAs<OverlapCalculator>(src, target);
        default:  return copyAs<PairCounter>(src, target);
    }
}


void copies(Case& c)
{
    Kind k = Kind(c.below(NKINDS));
    GenOpts so = structureOpts(k);
    so.maxsites = 8;
    so.minsites = 2;
    so.maxcell = 16;
    vector<ref::Model> ms(1, genModel(c, so));
    c.note() << kindnames[k] << "\n0: " << ms[0].str() << "\n";
    int nm = c.range(2, 4);
    for (int i = 1; i < nm; ++i)
    {
        ref::Model m = c.pick(ms);
        string w = mutateModel(c, m, so);
        c.note() << i << ": " << w << " " << m.str() << "\n";
        ms.push_back(m);
    }
    CfgOpts co;
    co.mindebyeprec = 1e-12;
    co.masks = false;
    struct Q { PQPtr q; vector<Op> ops; int m; bool current; Scales hist; };
    vector<Q> qs(1);
    qs[0].q = make(k);
    qs[0].m = -1;
    qs[0].current = false;
    if (supportsOptimized(k) && c.chance(4, 5))  qs[0].q->setEvaluatorType(sr::OPTIMIZED);
    Op ini = initialConfig(c, k, co);
    ini.fn(*qs[0].q);
    qs[0].ops.push_back(ini);
    c.note() << ini.desc << "\n";
    vector<StructureAdapterPtr> strus;
    for (auto& m : ms)  strus.push_back(ref::build(m));
    int ncopied = 0, nevalafter = 0;
    auto evaluate = [&](int i, int j) {
        Q& x = qs[i];
        x.q->eval(strus[j]);
        x.m = j;
        x.current = true;
        PQPtr f = make(k);
        f->setEvaluatorType(sr::BASIC);
        for (Op& o : x.ops)  o.fn(*f);
        forgetRange(*f, *x.q);
        f->eval(ref::build(ms[j]));
        compareFresh("calculator " + vt::str(i) + " for structure " + vt::str(j), *x.q, *f, &x.hist);
        if (ncopied)  ++nevalafter;
    };
    int nsteps = c.range(3, 10);
    for (int s = 0; s < nsteps; ++s)
    {
        int i = c.below(qs.size());
        int op = c.below(6);
        if (op == 0)
        {
            Q x = qs[i];
            int to = qs.size() > 1 && c.flag() ? c.below(qs.size()) : int(qs.size());
            if (to == i || to > 3)  continue;
            c.note() << "copy " << i << " to " << to << (to < int(qs.size()) ? " by assignment" : "") << "\n";
            x.q = copyCalculator(qs[i].q, to < int(qs.size()) ? qs[to].q : PQPtr());
            // The slope of a linear baseline is stored in the baseline, which is
            // the same object in a copy (known finding).
            if (k == PDF)
            {
                PDFCalculator& p = dynamic_cast<PDFCalculator&>(*x.q);
                p.setBaseline(p.getBaseline()->clone());
            }
            if (to < int(qs.size()))  qs[to] = x;
            else  qs.push_back(x);
            ++ncopied;
            if (x.current)
            {
                Results ra = results(*x.q, true), rb = results(*qs[i].q, true);
                compareResults("copy", ra, rb, 0, 0);
            }
        }
        else if (op == 1)
        {
            double v = c.oneof({2.5003, 3.5007, 4.5001, 5.0009});
            Op o;
            o.desc = "setRmax " + vt::str(v);
            o.fn = [v](PairQuantity& q) { q.setRmax(v); };
            if (c.flag())
            {
                int a = c.below(3), b = c.below(4);
                bool w = c.flag();
                o.desc = "setPairMask " + vt::str(a) + " " + vt::str(b) + " " + vt::str(w);
                o.fn = [=](PairQuantity& q) { q.setPairMask(a, b, w); };
            }
            c.note() << o.desc << " for " << i << "\n";
            o.fn(*qs[i].q);
            qs[i].ops.push_back(o);
            qs[i].current = false;
        }
        else
        {
            int j = c.below(nm);
            c.note() << "eval " << i << " structure " << j << "\n";
            vector<Results> others;
            for (auto& x : qs)
                others.push_back(x.current ? results(*x.q, true) : Results());
            evaluate(i, j);
            for (int o = 0; o < int(qs.size()); ++o)
                if (o != i && qs[o].current)
                    compareResults("other calculator", results(*qs[o].q, true), others[o], 0, 0);
        }
    }
    for (int i = 0; i < int(qs.size()); ++i)  evaluate(i, c.below(nm));
    c.label(string("copies of ") + kindnames[k]);
    if (ncopied && nevalafter > 2)  c.nontrivial();
}

}   // namespace

VT_PROP(copies, "a calculator was copied and at least 3 evaluations follow", 12000, 160000) { copies(c); }
VT_PROP(pdf, "two or more changes and three compared evaluations", 12000, 80000) { reuse(c, PDF, 8); }
VT_PROP(debye, "two or more changes and three compared evaluations", 10000, 50000) { reuse(c, DEBYE, 8); }
VT_PROP(bond, "two or more changes and three compared evaluations", 10000, 80000) { reuse(c, BOND, 8); }
VT_PROP(bvs, "two or more changes and three compared evaluations", 10000, 80000) { reuse(c, BVS, 8); }
VT_PROP(overlap, "two or more changes and three compared evaluations", 10000, 80000) { reuse(c, OVERLAP, 8); }
VT_PROP(counter, "two or more changes and three compared evaluations", 6000, 50000) { reuse(c, COUNTER, 8); }
VT_PROP(shared, "two or more in-place changes with several evaluations of each calculator", 12000, 80000)
{
    static const Kind kk[] = {PDF, DEBYE, BVS, OVERLAP};
    shared(c, kk[c.below(4)]);
}


// Order of events that decides if cached results are up to date
VT_PROP(ticker, "at least 3 clicks and one update", 20000, 1000000)
{
    using diffpy::eventticker::EventTicker;
    vector<EventTicker> t(c.range(2, 6));
    vector<int> m(t.size(), 0);
    int g = 0, nup = 0;
    int n = c.range(1, 25);
    for (int k = 0; k < n; ++k)
    {
        int i = c.below(t.size()), j = c.below(t.size());
        switch (c.below(6))
        {
            case 0:
            case 1:
                t[i].click();
                m[i] = ++g;
                c.note() << "click " << i << "\n";
                break;
            case 2:
            case 3:
                t[i].updateFrom(t[j]);
                m[i] = max(m[i], m[j]);
                ++nup;
                c.note() << "update " << i << " from " << j << "\n";
                break;
            case 4:
                if (c.flag())  t[i] = t[j], m[i] = m[j];
                else  t[i] = EventTicker(), m[i] = 0;
                c.note() << "assign " << i << "\n";
                break;
            default:
            {
                // archive loaded in the same process
                EventTicker x;
                if (c.flag())  x.click(), ++g;
                diffpy::serialization_fromstring(x, diffpy::serialization_tostring(t[j]));
                t[i] = x;
                m[i] = m[j];
                c.note() << "load " << i << " from " << j << "\n";
            }
        }
        for (size_t a = 0; a < t.size(); ++a)
            for (size_t b = 0; b < t.size(); ++b)
            {
                const EventTicker &ta = t[a], &tb = t[b];
                VT_CHECK((ta < tb) == (m[a] < m[b]), "order < of " << a << " " << b);
                VT_CHECK((ta <= tb) == (m[a] <= m[b]), "order <= of " << a << " " << b);
                VT_CHECK((ta > tb) == (m[a] > m[b]), "order > of " << a << " " << b);
                VT_CHECK((ta >= tb) == (m[a] >= m[b]), "order >= of " << a << " " << b);
                VT_CHECK((ta == tb) == (m[a] == m[b]), "equality of " << a << " " << b);
                VT_CHECK((ta != tb) == (m[a] != m[b]), "inequality of " << a << " " << b);
                VT_CHECK((ta.value() < tb.value()) == (m[a] < m[b]), "values of " << a << " " << b);
            }
    }
    if (g > 2 && nup)  c.nontrivial();
}


// Fixed scenario listed in known-findings.txt
VT_PROP(baseline, "two calculators use the same linear baseline", 4, 4)
{
    ref::Model m;
    m.kind = ref::PERIODIC;
    for (int i = 0; i < 3; ++i)  m.par[i] = 3 + 0.5 * c.below(3);
    ref::Site s;
    s.type = "C";
    s.r = ref::v3(0, 0, 0);
    s.U = ref::diag(0.01);
    m.sites.push_back(s);
    PDFCalculator a;
    a.eval(ref::build(m));
    QuantityType before = a.getPDF();
    PDFCalculator b(a);
    m.par[0] = 6;
    b.eval(ref::build(m));
    if (a.getPDF() != before)
        c.knownFinding("evaluation of a copied PDFCalculator changes the slope of the linear baseline "
                "object it shares with the original");
    PDFCalculator d(a);
    d.setBaseline(d.getBaseline()->clone());
    a.eval(a.getStructure());
    before = a.getPDF();
    d.eval(ref::build(m));
    VT_CHECK(a.getPDF() == before, "PDF has changed without sharing of a baseline");
    c.nontrivial();
}
