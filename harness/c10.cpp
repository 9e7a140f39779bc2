// C10 Debye-sum F(Q) and PDF equal their defining sums
#include "pdfref.hpp"

using namespace std;
using namespace calc;
using namespace pdfref;
using namespace diffpy::srreal;

namespace {

struct Spec
{
    double rmin, rmax, rstep, qmin, qmax, qstep, mext, prec;
    string table;
    map<string, double> custom;
    Width w;
    Envelopes env;
    Masks masks;

    string str() const
    {
        ostringstream o;
        o << "rmin " << rmin << " rmax " << rmax << " rstep " << rstep << " qmin " << qmin <<
            " qmax " << qmax << " qstep " << qstep << " maxextension " << mext << " precision " << prec <<
            " " << table << " " << w.str();
        for (auto& kv : custom)  o << " " << kv.first << "=" << kv.second;
        for (auto& kv : env)  o << " " << kv.first << ":" << kv.second;
        o << " " << masks.str();
        return o.str();
    }
};

Spec genSpec(Case& c, const ref::Model& m)
{
    Spec s;
    s.rmin = c.oneof({0.0, 0.4, 1.0, 2.3});
    if (s.rmin)  s.rmin += c.real(0, 0.4) + 0.0007319;
    s.rmax = c.oneof({3.5, 5.0, 2.0, 6.0}) + c.real(0, 0.6) + 0.0003317;
    s.rstep = c.oneof({0.1003171, 0.0501293, 0.2011379, 0.0307931});
    s.qmin = c.flag() ? c.oneof({1.0, 0.3, 3.7}) + c.real(0, 1) : 0;
    s.qmax = c.oneof({10.0, 20.0, 6.0, 28.0, 3.0}) + c.real(0, 1) + 0.00317;
    s.qstep = c.chance(1, 3) ? c.oneof({0.1, 0.05, 0.23}) + c.real(0, 0.01) : 0;
    s.mext = c.oneof({10.0, 2.0, 0.7, 0.0, 4.0});
    s.prec = c.oneof({1e-6, 1e-9, 1e-4, 1e-12});
    s.table = c.oneof<const char*>({"xray", "neutron", "electronnumber", "electron"});
    if (c.chance(1, 4) && m.sites.size())  s.custom[c.pick(m.sites).type] = c.oneof({2.0, 7.3, 0.5});
    s.w = genWidth(c, true);
    s.env = genEnvelopes(c);
    s.masks = genMasks(c, m);
    return s;
}

void apply(Case& c, DebyePDFCalculator& p, const Spec& s)
{
    bool obj = c.flag();
    p.setRmin(s.rmin);
    p.setRmax(s.rmax);
    p.setRstep(s.rstep);
    p.setQmin(s.qmin);
    p.setQmax(s.qmax);
    p.setMaxExtension(s.mext);
    p.setDebyePrecision(s.prec);
    if (obj)
    {
        ScatteringFactorTablePtr t = ScatteringFactorTable::createByType(s.table);
        for (auto& kv : s.custom)  t->setCustomAs(kv.first, kv.first, kv.second, s.table == "electron" ? 3.0 : 0.0);
        p.setScatteringFactorTable(t);
    }
    else
    {
        p.setScatteringFactorTableByType(s.table);
        for (auto& kv : s.custom)  p.getScatteringFactorTable()->setCustomAs(kv.first, kv.first, kv.second, s.table == "electron" ? 3.0 : 0.0);
    }
    s.w.apply(p, obj);
    applyEnvelopes(p, s.env);
    s.masks.apply(p);
}

double maxabs(const vector<double>& v)
{
    double rv = 0;
    for (double x : v)  rv = max(rv, fabs(x));
    return rv;
}

// Q-dependent scattering factor of an atom from an independent table object
struct SF
{
    ScatteringFactorTablePtr tb;
    map<string, double> scale;
    SF(const Spec& s)
    {
        tb = ScatteringFactorTable::createByType(s.table);
        // rescaled standard factor that has the custom value at given q
        for (auto& kv : s.custom)
            scale[kv.first] = kv.second / tb->lookup(kv.first, s.table == "electron" ? 3.0 : 0.0);
    }
    double operator()(const string& t, double q) const
    {
        double rv = tb->lookup(t, q);
        auto i = scale.find(t);
        return i == scale.end() ? rv : rv * i->second;
    }
};

}   // namespace


VT_PROP(debyesum, "at least 5 pairs in range, F(Q) tolerance below 0.1 % and non-zero PDF", 60000, 1200000)
{
    GenOpts so = structureOpts(DEBYE);
    so.maxsites = c.oneof({4, 7});
    so.maxcell = 16;
    ref::Model m = genModel(c, so);
    if (ref::hasAmbiguousSelf(m))  c.discard();
    Spec s = genSpec(c, m);
    const double dr = s.rstep;
    DebyePDFCalculator p;
    if (c.chance(1, 3))  p.setEvaluatorType(BASIC);
    apply(c, p, s);
    StructureAdapterPtr stru = ref::build(m);
    c.note() << m.str() << s.str() << "\n";
    // reduce the range used for the default settings
    double ext = min(s.mext, 12 * M_PI / s.qmax +
            sqrt(-log(3.33e-6) / (4 * M_LN2)) * s.w.maxfwhm(maxU(m), s.rmin, s.rmax));
    int clo = max(0, stepsUpTo(s.rmin - ext, dr)), chi = stepsUpTo(s.rmax + ext, dr);
    bool custom = s.qstep > 0;
    double oq = s.qmax * chi * dr / M_PI > 4 ? M_PI / (chi * dr) : s.qmax / 4;
    p.setOptimumQstep();
    p.eval(stru);
    if (custom)  p.setQstep(s.qstep), p.eval(stru);
    // The pair range may remain by up to 50 steps longer after it was longer.
    // Accept it and verify that it is within the allowed limits.
    double xhi = p.getDoubleAttr("extendedrmax");
    vt::checkClose("extended rmin", p.getDoubleAttr("extendedrmin"), clo * dr, 1e-13, 1e-13);
    int ghi = int(round(xhi / dr));
    vt::checkClose("extended rmax", xhi, ghi * dr, 1e-13, 1e-13);
    VT_CHECK(ghi >= chi && ghi < chi + 50, "extended rmax " << xhi << " expected at least " << chi * dr);
    if (ghi != chi)
    {
        c.label("longer pair range");
        chi = ghi;
        oq = s.qmax * chi * dr / M_PI > 4 ? M_PI / (chi * dr) : s.qmax / 4;
    }
    double dq = p.getQstep();
    if (p.isOptimumQstep())  vt::checkClose("optimum qstep", dq, oq, 1e-12, 0);
    else
    {
        VT_CHECK(custom && dq == s.qstep, "custom qstep");
        VT_CHECK(dq <= oq * (1 + 1e-12), "custom qstep above the optimum");
        c.label("custom qstep");
    }
    if (custom && s.qstep < oq * (1 - 1e-9) && ghi == chi)
        VT_CHECK(!p.isOptimumQstep() || s.qstep >= M_PI / (s.rmax + ext) * 0.5, "custom qstep ignored");
    // sums
    int nq = stepsUpTo(s.qmax, dq);
    vector<double> qgrid;
    for (int k = 0; k < nq; ++k)  qgrid.push_back(k * dq);
    vector<double> gq = p.getQgrid();
    // qmax divided by qstep may be an integer up to roundoff
    if (fabs(s.qmax / dq - round(s.qmax / dq)) < 1e-9 && gq.size() == qgrid.size() + 1)
    {
        qgrid.push_back(nq * dq);
        ++nq;
    }
    vt::checkCloseSeq("Q grid", gq, qgrid, 1e-12, 1e-13);
    vector<int> mult = ref::multiplicities(m);
    double totocc = ref::totalOccupancy(m);
    SF sf(s);
    size_t ns = m.sites.size();
    vector<vector<double> > f(ns, vector<double>(nq));
    vector<double> favg(nq, 0.0);
    double maxf = 0;
    for (size_t i = 0; i < ns; ++i)
        for (int k = 0; k < nq; ++k)
        {
            // electron scattering factors are singular at zero where they do not matter
            double x = (s.table == "electron" && k == 0) ? 1.0 : sf(m.sites[i].type, qgrid[k]);
            f[i][k] = x * m.sites[i].occ;
            favg[k] += f[i][k] * mult[i];
        }
    for (double& x : favg)  x = totocc > 0 ? x / totocc : 0;
    for (int k = 0; k < nq && totocc > 0; ++k)
    {
        double mf = 0;
        for (size_t i = 0; i < ns; ++i)  mf = max(mf, fabs(f[i][k]));
        if (fabs(favg[k]) < 0.02 * mf)  c.discard();
        maxf = max(maxf, mf);
    }
    vector<double> F(nq, 0.0), tolF(nq, 0.0);
    int npairs = 0, nmasked = 0;
    for (size_t i = 0; i < ns; ++i)
    {
        for (const ref::Bond& b : ref::bonds(m, i, clo * dr, chi * dr))
        {
            if (!s.masks.get(m, i, b.i1))  { ++nmasked; continue; }
            ++npairs;
            double w = s.w.fwhm(b.msd, b.d), sg = w / SIG2FWHM;
            for (int k = 0; k < nq; ++k)
            {
                double q = qgrid[k];
                F[k] += mult[i] * f[i][k] * f[b.i1][k] * exp(-0.5 * sg * sg * q * q) * sin(q * b.d) / b.d;
                tolF[k] += max(1.0, double(mult[i])) * s.prec;
            }
        }
    }
    for (int k = 0; k < nq; ++k)
    {
        double sc = totocc * favg[k] * favg[k];
        F[k] = sc ? F[k] / sc : 0;
        tolF[k] = sc ? tolF[k] / sc + 1e-10 / sc : 0;
    }
    if (s.table == "electron")  F[0] = 0;
    double atol = 1e-9 * maxabs(F);
    vector<double> gf = p.getF();
    VT_CHECK(gf.size() == F.size(), "size of F " << gf.size() << " expected " << F.size());
    for (int k = 0; k < nq; ++k)
        vt::checkClose("F at Q=" + vt::str(qgrid[k]), gf[k], F[k], 0, atol + tolF[k]);
    // PDF is the interpolated transform
    vector<double> rgrid;
    for (int k = stepsUpTo(s.rmin, dr); k < stepsUpTo(s.rmax, dr); ++k)  rgrid.push_back(k * dr);
    vt::checkCloseSeq("r grid", p.getRgrid(), rgrid, 1e-14, 1e-14);
    int npad = max(nq, int(ceil(M_PI / dr / dq)));
    int N = pow2ceil(npad);
    double drp = M_PI / (N * dq);
    VT_CHECK(drp <= dr * (1 + 1e-9), "padding");
    double tolg = 0;
    for (int k = 0; k < nq; ++k)  tolg += (tolF[k] + atol) * dq * 2 / M_PI;
    auto transform = [&](double qmin) {
        vector<double> F1 = F;
        int n0 = stepsUpTo(qmin, dq);
        for (int k = 0; k < min(n0, nq); ++k)  F1[k] = 0;
        int kmax = rgrid.empty() ? 0 : min(N, int(rgrid.back() / drp) + 3);
        vector<double> g = sineSum(F1, N, dq, kmax), rv;
        for (double r : rgrid)
        {
            double x = r / drp;
            int i = min(int(x), kmax - 2);
            rv.push_back((g[i] + (g[i + 1] - g[i]) * (x - i)) * 2 / M_PI);
        }
        return rv; };
    if (rgrid.size() && int(rgrid.back() / drp) + 3 > N)  c.discard();
    // qmin equal to a grid point up to roundoff
    double fr = s.qmin / dq;
    if (s.qmin > 0 && fabs(fr - round(fr)) < 1e-8)  c.discard();
    vector<double> g0 = transform(0), g = transform(s.qmin);
    tolg += 1e-10 * max(maxabs(g0), maxabs(g));
    vt::checkCloseSeq("RDF per r", p.getRDFperR(), g0, 0, tolg);
    vector<double> rdf(g0);
    double emx = 1;
    for (size_t k = 0; k < rgrid.size(); ++k)
    {
        double e = envelope(s.env, rgrid[k]);
        emx = max(emx, fabs(e));
        g[k] *= e;
        rdf[k] *= rgrid[k];
    }
    vt::checkCloseSeq("RDF", p.getRDF(), rdf, 0, tolg * (s.rmax + 1));
    vt::checkCloseSeq("PDF", p.getPDF(), g, 0, tolg * emx);
    if (npairs >= 5 && maxabs(g) > 1e-3 && tolg * emx < 1e-3 * maxabs(g))  c.nontrivial();
    c.label(s.w.type);
    c.label(s.table);
    if (nmasked)  c.label("masked pairs");
    if (rgrid.empty())  c.label("empty range");
    if (p.isOptimumQstep() && custom)  c.label("custom qstep too large");
}


// With a range that covers the whole molecule F(Q) does not depend on the
// r-range, and the PDF converges to a sum of peaks.
VT_PROP(molecule, "at least 3 atoms with 2 different types", 20000, 400000)
{
    GenOpts so = structureOpts(DEBYE);
    so.periodic = so.crystal = false;
    so.molsize = 2.5;
    so.minsites = 2;
    ref::Model m = genModel(c, so);
    DebyePDFCalculator a, b;
    double qmax = c.oneof({8.0, 15.0, 24.0}) + 0.0017;
    double qstep = c.oneof({0.1, 0.05, 0.2}) / 2;
    string table = c.oneof<const char*>({"xray", "neutron", "electronnumber"});
    for (DebyePDFCalculator* p : {&a, &b})
    {
        p->setDebyePrecision(1e-12);
        p->setScatteringFactorTableByType(table);
        p->setQmax(qmax);
        p->setMaxExtension(0);
        p->setRmin(0);
    }
    double ra = 16.0003, rb = 16.0003 + c.real(0, 10);
    a.setRmax(ra);
    b.setRmax(rb);
    a.setQstep(qstep);
    b.setQstep(qstep);
    b.setRstep(0.0203);
    StructureAdapterPtr stru = ref::build(m);
    c.note() << m.str() << qmax << " " << qstep << " " << table << " " << rb << "\n";
    a.eval(stru);
    b.eval(stru);
    double sfavg = 0, occ = 0;
    ScatteringFactorTablePtr tb = ScatteringFactorTable::createByType(table);
    for (auto& s : m.sites)  sfavg += s.occ * tb->lookup(s.type), occ += s.occ;
    if (occ == 0 || fabs(sfavg / occ) < 0.5)  c.discard();
    VT_CHECK(a.getQstep() == qstep && b.getQstep() == qstep, "custom qstep");
    vector<double> fa = a.getF(), fb = b.getF(), q = a.getQgrid();
    vt::checkCloseSeq("F of different r-ranges", fb, fa, 1e-9, 1e-9);
    // explicit double sum
    vector<double> F(q.size());
    for (size_t k = 0; k < q.size(); ++k)
    {
        double s = 0, avg = 0;
        for (size_t i = 0; i < m.sites.size(); ++i)
        {
            double fi = tb->lookup(m.sites[i].type, q[k]) * m.sites[i].occ;
            avg += fi / occ;
            for (size_t j = 0; j < m.sites.size(); ++j)
            {
                if (i == j)  continue;
                ref::V3 d = m.sites[j].r - m.sites[i].r;
                double dist = ref::norm(d);
                if (dist < 1e-6)  continue;
                double msd = ref::msd(m.sites[i], m.sites[i].U, d) + ref::msd(m.sites[j], m.sites[j].U, d);
                double fj = tb->lookup(m.sites[j].type, q[k]) * m.sites[j].occ;
                s += fi * fj * exp(-0.5 * msd * q[k] * q[k]) * sin(q[k] * dist) / dist;
            }
        }
        F[k] = s / (occ * avg * avg);
    }
    vt::checkCloseSeq("F of molecule", fa, F, 1e-8, 1e-8);
    set<string> tps;
    for (auto& s : m.sites)  tps.insert(s.type);
    if (m.sites.size() >= 3 && tps.size() >= 2)  c.nontrivial();
    c.label(table);
}


// Total scattering of zero average factor is not defined, results are zero.
VT_PROP(zeroaverage, "pair sum is not zero", 4000, 40000)
{
    GenOpts so = structureOpts(DEBYE);
    so.minsites = 2;
    so.maxsites = 6;
    so.types = {"C", "O"};
    ref::Model m = genModel(c, so);
    if (ref::hasAmbiguousSelf(m))  c.discard();
    vector<int> mult = ref::multiplicities(m);
    map<string, double> n;
    for (size_t i = 0; i < m.sites.size(); ++i)
    {
        m.sites[i].occ = 1;
        n[m.sites[i].type] += mult[i];
    }
    if (n.size() < 2)  c.discard();
    double unit = c.oneof({1.0, 0.5, -2.0});
    DebyePDFCalculator p;
    // factors are stored as ratios to the standard value, keep them exact
    p.setScatteringFactorTableByType("electronnumber");
    p.getScatteringFactorTable()->setCustomAs("C", "C", 48 * n["O"] * unit);
    p.getScatteringFactorTable()->setCustomAs("O", "O", -48 * n["C"] * unit);
    p.setRmax(4.0007);
    p.setQmax(c.oneof({8.0, 15.0}));
    if (c.flag())  p.setQmin(1.0);
    c.note() << m.str() << " unit " << unit << "\n";
    p.eval(ref::build(m));
    if (maxabs(p.value()) > 0)  c.nontrivial();
    for (double x : p.getF())  VT_CHECK(x == 0, "F is " << x);
    for (double x : p.getPDF())  VT_CHECK(x == 0, "PDF is " << x);
    for (double x : p.getRDF())  VT_CHECK(x == 0, "RDF is " << x);
}
