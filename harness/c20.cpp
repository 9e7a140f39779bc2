// C20 Peak profiles, widths, envelopes and baselines match their formulas
#include "calc.hpp"
#include "pdfref.hpp"
#include <diffpy/srreal/ConstantPeakWidth.hpp>
#include <diffpy/srreal/DebyeWallerPeakWidth.hpp>
#include <diffpy/srreal/JeongPeakWidth.hpp>
#include <diffpy/srreal/PDFBaseline.hpp>
#include <diffpy/srreal/PDFEnvelope.hpp>
#include <diffpy/srreal/PeakProfile.hpp>
#include <diffpy/srreal/PeakWidthModel.hpp>

using namespace std;
using namespace calc;
using namespace diffpy::srreal;

namespace {

const double EPS = numeric_limits<double>::epsilon();

// copy of a component by one of the public ways, keeping its parameters
template <class P>
P copyOf(Case& c, const P& p)
{
    switch (c.below(3))
    {
        case 0:
            return p;
        case 1:
            c.label("clone");
            return p->clone();
        default:
            c.label("serialization copy");
            return cloneBySerialization(p);
    }
}

double gauss(double x, double fwhm)
{
    double s = fwhm / pdfref::SIG2FWHM;
    return exp(-0.5 * (x / s) * (x / s)) / (s * sqrt(2 * M_PI));
}

// integral over [a, b] by composite Simpson rule
template <class F>
double simpson(F f, double a, double b, int n)
{
    double h = (b - a) / n;
    double rv = f(a) + f(b);
    for (int i = 1; i < n; ++i)  rv += (i % 2 ? 4 : 2) * f(a + i * h);
    return rv * h / 3;
}

}   // namespace


VT_PROP(profile, "positive width and precision below 0.5", 600000, 10000000)
{
    string tp = c.oneof<const char*>({"gaussian", "croppedgaussian"});
    bool cropped = tp == "croppedgaussian";
    PeakProfilePtr p = PeakProfile::createByType(tp);
    VT_CHECK(p->type() == tp, p->type());
    double eps = EPS;
    int n = c.range(1, 4);
    bool useful = false;
    for (int i = 0; i < n; ++i)
    {
        if (c.chance(3, 4))
        {
            double e = c.chance(1, 2) ? c.logreal(1e-17, 2) :
                c.oneof({3.33e-6, 1e-3, 0.0, 1.0, 0.5, EPS, 0.99, 1.5, -1e-3, 1e-12});
            if (c.flag())  p->setPrecision(e);
            else  p->setDoubleAttr("peakprecision", e);
            c.note() << tp << " precision " << e << "\n";
            eps = max(e, EPS);
            VT_CHECK(p->getPrecision() == eps, p->getPrecision() << " after setting " << e);
            VT_CHECK(p->getDoubleAttr("peakprecision") == eps, "attribute");
        }
        p = copyOf(c, p);
        VT_CHECK(p->type() == tp, "copied type");
        const PeakProfile& f = *p;
        VT_CHECK(f.getPrecision() == eps, "copied precision");
        double w = c.chance(1, 8) ? c.oneof({0.0, -0.3, -1e-9}) : c.logreal(1e-6, 1e3);
        c.note() << "fwhm " << w << "\n";
        if (w <= 0)
        {
            VT_CHECK(f.xboundlo(w) == 0 && f.xboundhi(w) == 0, "bounds for zero width");
            VT_CHECK(f(0, w) == 0 && f(c.sreal(3), w) == 0, "value for zero width");
            c.label("zero width");
            continue;
        }
        double xb = eps < 1 ? w / pdfref::SIG2FWHM * sqrt(-2 * log(eps)) : 0;
        vt::checkClose("xboundhi", f.xboundhi(w), xb, 1e-12, 0);
        vt::checkClose("xboundlo", f.xboundlo(w), -xb, 1e-12, 0);
        double area = cropped && eps < 1 ? erf(xb / w * pdfref::SIG2FWHM / sqrt(2.0)) : 1;
        // values
        int m = c.range(1, 6);
        for (int k = 0; k < m; ++k)
        {
            double x = c.chance(1, 3) ? c.sreal(10 * w) : c.sreal(1.2) * max(xb, 0.1 * w);
            double e = gauss(x, w) / area;
            double d = fabs(x) - xb;
            if (cropped && fabs(d) < 1e-9 * w)  continue;
            if (cropped && d > 0)  e = 0;
            double g = f(x, w);
            if (!vt::close(g, e, 1e-10, 1e-300))
                vt::fail(tp + " at x " + vt::str(x) + " fwhm " + vt::str(w) + " is " + vt::str(g) +
                        ", expected " + vt::str(e));
            VT_CHECK(f(-x, w) == g, "profile is not symmetric at " << x);
            // outside of bounds
            double y = xb * (1 + 1e-12) + fabs(x);
            if (eps < 1)
                VT_CHECK(f(y, w) <= eps * f(0, w) * (1 + 1e-9),
                        "relative value " << f(y, w) / f(0, w) << " outside of bounds at " << y);
        }
        if (eps < 0.5)
        {
            // full width at half maximum
            double top = f(0, w);
            vt::checkClose("half maximum", f(w / 2, w), top / 2, 1e-10, 0);
            vt::checkClose("half maximum", f(-w / 2, w), top / 2, 1e-10, 0);
            // normalization
            double lo = cropped ? f.xboundlo(w) * (1 - 1e-13) : -4.5 * w;
            double hi = cropped ? f.xboundhi(w) * (1 - 1e-13) : 4.5 * w;
            double a = simpson([&](double x) { return f(x, w); }, lo, hi, 200);
            vt::checkClose("area of " + tp, a, 1, 0, 1e-7);
            useful = true;
        }
    }
    c.label(tp);
    if (useful)  c.nontrivial();
}


VT_PROP(width, "at least 5 pairs with 2 different non-zero widths", 40000, 800000)
{
    GenOpts so = structureOpts(PDF);
    so.minsites = c.chance(1, 30) ? 0 : 1;
    so.maxcell = 16;
    so.maxU = c.oneof({0.03, 0.5, 0.001});
    ref::Model m = genModel(c, so);
    if (ref::hasAmbiguousSelf(m))  c.discard();
    StructureAdapterPtr stru = ref::build(m);
    c.note() << m.str() << "\n";
    double maxu = pdfref::maxU(m);
    vt::checkClose("maxUii", maxUii(stru), maxu, 1e-6, 1e-14);
    map<string, PeakWidthModelPtr> models;
    map<string, pdfref::Width> par;
    for (const char* tp : {"constant", "debye-waller", "jeong"})
    {
        models[tp] = PeakWidthModel::createByType(tp);
        VT_CHECK(models[tp]->type() == tp, "type");
        par[tp].type = tp;
    }
    int rounds = c.range(1, 3);
    bool useful = false;
    for (int it = 0; it < rounds; ++it)
    {
        // parameters
        int nset = c.range(0, 5);
        for (int k = 0; k < nset; ++k)
        {
            pdfref::Width& w = par[k % 3 ? "jeong" : "constant"];
            PeakWidthModelPtr& p = models[w.type];
            if (w.type == "constant")
            {
                double v = c.oneof({0.1, 0.0, -0.2, 1e-4, 3.0}) * c.real(0.5, 1.5);
                switch (c.below(4))
                {
                    case 0:
                        p->setDoubleAttr("width", w.width = v);
                        break;
                    case 1:
                        p->setDoubleAttr("uisowidth", v);
                        w.width = (v < 0 ? -1 : 1) * pdfref::SIG2FWHM * sqrt(2 * fabs(v));
                        break;
                    case 2:
                        p->setDoubleAttr("bisowidth", v);
                        w.width = (v < 0 ? -1 : 1) * pdfref::SIG2FWHM * sqrt(fabs(v)) / (2 * M_PI);
                        break;
                    default:
                        boost::dynamic_pointer_cast<ConstantPeakWidth>(p)->setWidth(w.width = v);
                }
                double x = p->getDoubleAttr("width");
                vt::checkClose("width", x, w.width, 1e-13, 0);
                w.width = x;
                double u = x * fabs(x) / 2 / pow(pdfref::SIG2FWHM, 2);
                vt::checkClose("uisowidth", p->getDoubleAttr("uisowidth"), u, 1e-13, 0);
                vt::checkClose("bisowidth", p->getDoubleAttr("bisowidth"), u * 8 * M_PI * M_PI, 1e-13, 0);
            }
            else
            {
                boost::shared_ptr<JeongPeakWidth> j = boost::dynamic_pointer_cast<JeongPeakWidth>(p);
                bool attr = c.flag();
                double v;
                switch (c.below(4))
                {
                    case 0:
                        w.d1 = v = c.oneof({0.0, 0.5, 1.7, -0.6, 8.0});
                        if (attr)  p->setDoubleAttr("delta1", v);
                        else  j->setDelta1(v);
                        break;
                    case 1:
                        w.d2 = v = c.oneof({0.0, 0.7, 3.1, -1.5, 20.0});
                        if (attr)  p->setDoubleAttr("delta2", v);
                        else  j->setDelta2(v);
                        break;
                    case 2:
                        w.qb = v = c.oneof({0.0, 0.03, 0.2, -0.1});
                        if (attr)  p->setDoubleAttr("qbroad", v);
                        else  j->setQbroad(v);
                        break;
                    default:
                        w.qbs = v = c.oneof({0.0, 0.02, 0.15, -0.1});
                        if (attr)  p->setDoubleAttr("qbroad_seperable", v);
                        else  j->setQbroad_seperable(v);
                }
                VT_CHECK(p->getDoubleAttr("delta1") == w.d1 && j->getDelta1() == w.d1, "delta1");
                VT_CHECK(p->getDoubleAttr("delta2") == w.d2 && j->getDelta2() == w.d2, "delta2");
                VT_CHECK(p->getDoubleAttr("qbroad") == w.qb && j->getQbroad() == w.qb, "qbroad");
                VT_CHECK(p->getDoubleAttr("qbroad_seperable") == w.qbs &&
                        j->getQbroad_seperable() == w.qbs, "qbroad_seperable");
            }
        }
        for (auto& kv : models)
        {
            c.note() << par[kv.first].str() << "\n";
            kv.second = copyOf(c, kv.second);
        }
        double rmin = c.chance(1, 3) ? 0 : c.real(0, 4);
        double rmax = rmin + c.real(0, 5);
        c.note() << "r " << rmin << " " << rmax << "\n";
        BaseBondGeneratorPtr bnds = stru->createBondGenerator();
        bnds->setRmin(rmin);
        bnds->setRmax(rmax);
        map<string, double> mx;
        for (auto& kv : models)  mx[kv.first] = kv.second->maxWidth(stru, rmin, rmax);
        int npairs = 0;
        set<long> ws;
        for (int i = 0; i < stru->countSites(); ++i)
        {
            bnds->selectAnchorSite(i);
            bnds->selectSiteRange(0, stru->countSites());
            for (bnds->rewind(); !bnds->finished(); bnds->next())
            {
                double d = bnds->distance();
                double msd = ref::msd(m.sites[i], ref::fromR3(bnds->Ucartesian0()), ref::fromR3(bnds->r01())) +
                    ref::msd(m.sites[bnds->site1()], ref::fromR3(bnds->Ucartesian1()), ref::fromR3(bnds->r01()));
                ++npairs;
                for (auto& kv : models)
                {
                    const pdfref::Width& w = par[kv.first];
                    double e = w.fwhm(msd, d);
                    double g = kv.second->calculate(*bnds);
                    // square root is steep about zero
                    double tol = 1e-10;
                    if (kv.first != "constant")
                    {
                        double rt = kv.first == "jeong" ? w.ratio(d) : 1.0;
                        tol = 1e-8 * sqrt(max(1.0, fabs(rt)));
                        if (fabs(rt) < 1e-9)  continue;
                    }
                    if (!vt::close(g, e, 1e-10, msd > 1e-12 ? tol * 1e-3 : 1e-6))
                        vt::fail(kv.first + " width at distance " + vt::str(d) + " msd " + vt::str(msd) +
                                " is " + vt::str(g) + ", expected " + vt::str(e));
                    if (kv.first == "jeong" && g > 0)  ws.insert(lround(g * 1e7));
                    // upper bound of the width
                    if (w.d1 < 0 || w.d2 < 0)  continue;
                    VT_CHECK(mx[kv.first] >= g - 1e-9 * (1 + fabs(g)), kv.first << " maximum width "
                            << mx[kv.first] << " is below the width " << g << " of a pair at " << d);
                }
            }
        }
        for (auto& kv : models)
        {
            const pdfref::Width& w = par[kv.first];
            // the bound may be tight, but it must be useful as well
            double e = w.maxfwhm(maxu, rmin, rmax);
            if (w.type != "constant")
                VT_CHECK(mx[kv.first] <= max(e, 0.0) * (1 + 1e-6) + 1e-7, kv.first << " maximum width " <<
                        mx[kv.first] << " above " << e);
            else
                VT_CHECK(mx[kv.first] == w.width, "constant maximum width");
        }
        if (npairs >= 5 && ws.size() > 1)  useful = true;
    }
    if (m.kind == ref::CRYSTAL)  c.label("crystal");
    if (m.kind == ref::MOLECULE)  c.label("molecule");
    if (useful)  c.nontrivial();
}


VT_PROP(envelope, "an envelope value differs from 0 and 1", 600000, 10000000)
{
    string tp = c.oneof<const char*>({"scale", "qresolution", "stepcut", "sphericalshape"});
    PDFEnvelopePtr p = PDFEnvelope::createByType(tp);
    VT_CHECK(p->type() == tp, "type");
    double v = tp == "scale" ? 1 : 0;
    VT_CHECK(p->getDoubleAttr(pdfref::envattr(tp)) == v, "default parameter of " << tp);
    int n = c.range(1, 4);
    bool useful = false;
    for (int i = 0; i < n; ++i)
    {
        if (c.chance(3, 4))
        {
            v = c.chance(1, 4) ? c.oneof({0.0, -1.0, 1.0, 1e-300, 1e300}) : c.logreal(1e-3, 1e3);
            if (c.chance(1, 8))  v *= -1;
            p->setDoubleAttr(pdfref::envattr(tp), v);
        }
        p = copyOf(c, p);
        VT_CHECK(p->getDoubleAttr(pdfref::envattr(tp)) == v, "parameter of " << tp);
        double r = c.chance(1, 6) ? fabs(v) : c.chance(1, 4) ? fabs(v) * c.real(0, 2) : c.logreal(1e-3, 1e3);
        if (c.chance(1, 20))  r = 0;
        c.note() << tp << " " << v << " at " << r << "\n";
        pdfref::Envelopes e;
        e[tp] = v;
        double x = pdfref::envelope(e, r);
        double g = (*p)(r);
        if (!vt::close(g, x, 1e-12, tp == "sphericalshape" ? 1e-15 : 0) && !(x < 1e-200 && g < 1e-200 && g >= 0))
            vt::fail(tp + " envelope with parameter " + vt::str(v) + " at " + vt::str(r) + " is " +
                    vt::str(g) + ", expected " + vt::str(x));
        if (g != 0 && g != 1)  useful = true;
    }
    c.label(tp);
    if (useful)  c.nontrivial();
}


VT_PROP(baseline, "non-zero slope", 200000, 4000000)
{
    string tp = c.oneof<const char*>({"linear", "zero", "linear"});
    PDFBaselinePtr p = PDFBaseline::createByType(tp);
    VT_CHECK(p->type() == tp, "type");
    double v = 0;
    if (tp == "linear")  VT_CHECK(p->getDoubleAttr("slope") == 0, "default slope");
    int n = c.range(1, 3);
    for (int i = 0; i < n; ++i)
    {
        if (tp == "linear" && c.chance(3, 4))
        {
            v = c.sreal(10) * c.oneof({1.0, 1e-5, 1e6});
            p->setDoubleAttr("slope", v);
        }
        p = copyOf(c, p);
        double r = c.chance(1, 20) ? 0 : c.logreal(1e-3, 1e3);
        c.note() << tp << " " << v << " at " << r << "\n";
        double g = (*p)(r);
        VT_CHECK(vt::close(g, v * r, 1e-14, 0), tp << " baseline of slope " << v << " at " << r << " is " << g);
        if (v != 0)  c.nontrivial();
    }
    c.label(tp);
}
