// C09 Real-space PDF equals its defining pair sum
#include "pdfref.hpp"

using namespace std;
using namespace calc;
using namespace pdfref;
using namespace diffpy::srreal;

namespace {

struct Spec
{
    double rmin, rmax, rstep, qmin, qmax, mext, prec;
    string profile, baseline, table;
    map<string, double> custom;     // scattering factors of types
    Width w;
    Envelopes env;
    Masks masks;

    string str() const
    {
        ostringstream o;
        o << "rmin " << rmin << " rmax " << rmax << " rstep " << rstep << " qmin " << qmin <<
            " qmax " << qmax << " maxextension " << mext << " precision " << prec << " " <<
            profile << " " << baseline << " " << table << " " << w.str();
        for (auto& kv : custom)  o << " " << kv.first << "=" << kv.second;
        for (auto& kv : env)  o << " " << kv.first << ":" << kv.second;
        o << " " << masks.str();
        return o.str();
    }
};

Spec genSpec(Case& c, const ref::Model& m, bool fft)
{
    Spec s;
    s.rmin = c.oneof({0.0, 0.4, 1.0, 2.3});
    if (s.rmin)  s.rmin += c.real(0, 0.4) + 0.0007319;
    s.rmax = c.oneof({3.5, 5.0, 2.0, 6.0}) + c.real(0, 0.6) + 0.0003317;
    s.rstep = c.oneof({0.1003171, 0.0501293, 0.2011379, 0.0307931});
    s.qmin = fft && c.flag() ? c.oneof({1.0, 0.3, 3.7}) + c.real(0, 1) : 0;
    s.qmax = fft ? c.oneof({20.0, 12.0, 9.0, 28.0, 0.0}) : 0;
    if (s.qmax)  s.qmax += c.real(0, 1) + 0.00317;
    s.mext = c.oneof({10.0, 2.0, 0.7, 0.0, 4.0});
    s.prec = fft ? c.oneof({1e-9, 1e-11}) : c.oneof({1e-9, 3.33e-6, 1e-12, 1e-4});
    s.profile = c.oneof<const char*>({"gaussian", "croppedgaussian"});
    s.baseline = c.oneof<const char*>({"linear", "zero", "linear"});
    s.table = c.oneof<const char*>({"xray", "neutron", "electronnumber"});
    if (c.chance(1, 4) && m.sites.size())  s.custom[c.pick(m.sites).type] = c.oneof({2.0, 7.3, 0.5});
    s.w = genWidth(c, true);
    s.env = genEnvelopes(c);
    s.masks = genMasks(c, m);
    return s;
}

void apply(Case& c, PDFCalculator& p, const Spec& s, bool fresh)
{
    bool obj = c.flag();
    p.setRmin(s.rmin);
    p.setRmax(s.rmax);
    p.setRstep(s.rstep);
    p.setQmin(s.qmin);
    p.setQmax(s.qmax);
    p.setMaxExtension(s.mext);
    if (obj)
    {
        PeakProfilePtr pf = PeakProfile::createByType(s.profile);
        pf->setPrecision(s.prec);
        p.setPeakProfile(pf);
        p.setBaseline(PDFBaseline::createByType(s.baseline));
        ScatteringFactorTablePtr t = ScatteringFactorTable::createByType(s.table);
        for (auto& kv : s.custom)  t->setCustomAs(kv.first, kv.first, kv.second);
        p.setScatteringFactorTable(t);
    }
    else
    {
        p.setPeakProfileByType(s.profile);
        p.setDoubleAttr("peakprecision", s.prec);
        p.setBaselineByType(s.baseline);
        p.setScatteringFactorTableByType(s.table);
        p.getScatteringFactorTable()->resetAll();
        for (auto& kv : s.custom)  p.getScatteringFactorTable()->setCustomAs(kv.first, kv.first, kv.second);
    }
    s.w.apply(p, obj);
    applyEnvelopes(p, s.env);
    s.masks.apply(p);
}

struct Ref
{
    double totocc = 0, sfavg = 0, maxf = 0;
    int lo = 0, hi = 0, elo = 0, ehi = 0, clo = 0, chi = 0;
    vector<double> rgrid, extrdf, tolrdf;       // tolerances per point
    double slope = 0, rho = 0;
    int npairs = 0, nmasked = 0;
    bool unlimited = false;
};

Ref reference(const ref::Model& m, const Spec& s)
{
    Ref rv;
    vector<int> mult = ref::multiplicities(m);
    rv.totocc = ref::totalOccupancy(m);
    ScatteringFactorTablePtr tb = ScatteringFactorTable::createByType(s.table);
    vector<double> f;
    double fsum = 0, act = 0;
    for (size_t i = 0; i < m.sites.size(); ++i)
    {
        const string& t = m.sites[i].type;
        double x = s.custom.count(t) ? s.custom.at(t) : tb->lookup(t);
        f.push_back(x * m.sites[i].occ);
        fsum += f.back() * mult[i];
        rv.maxf = max(rv.maxf, fabs(x));
    }
    rv.sfavg = rv.totocc > 0 ? fsum / rv.totocc : 0;
    for (size_t i = 0; i < m.sites.size(); ++i)
        for (size_t j = 0; j < m.sites.size(); ++j)
            if (s.masks.get(m, i, j))
                act += m.sites[i].occ * mult[i] * m.sites[j].occ * mult[j];
    if (rv.totocc > 0)  act /= rv.totocc;
    double rho = rv.rho = m.periodic() ? rv.totocc / ref::volume(m) : 0;
    if (s.baseline == "linear" && rv.totocc > 0)  rv.slope = -4 * M_PI * rho * act / rv.totocc;
    // limits
    const double dr = s.rstep;
    rv.lo = stepsUpTo(s.rmin, dr);
    rv.hi = stepsUpTo(s.rmax, dr);
    if (rv.lo >= rv.hi)  return rv;
    double rip = (s.qmax > 0 && s.qmax < M_PI / dr) ? 6 * 2 * M_PI / s.qmax : 0;
    double half = sqrt(-log(s.prec) / (4 * M_LN2));
    double mxw = s.w.maxfwhm(maxU(m), s.rmin, s.rmax);
    double tails = half * mxw;
    double tot = rip + tails;
    bool scaled = tot > s.mext;
    if (scaled)
    {
        rip *= s.mext / tot;
        tot = s.mext;
    }
    rv.elo = max(0, stepsUpTo(s.rmin - rip, dr));
    rv.ehi = stepsUpTo(s.rmax + rip, dr);
    rv.clo = max(0, int(floor((s.rmin - tot) / dr)));
    rv.chi = stepsUpTo(s.rmax + tot, dr);
    double plo = rv.clo * dr, phi = rv.chi * dr;
    // pairs out of the range do not matter when their peaks do not reach it
    rv.unlimited = !scaled && !s.w.growing();
    if (rv.unlimited)  plo = 0, phi += 0.5;
    int n = rv.ehi - rv.elo;
    rv.extrdf.assign(n, 0.0);
    rv.tolrdf.assign(n, 0.0);
    for (int k = rv.elo; k < rv.ehi; ++k)  rv.rgrid.push_back(k * dr);
    double hmod = s.profile == "croppedgaussian" ? 1 / erf(sqrt(-log(s.prec))) : 1;
    for (size_t i = 0; i < m.sites.size(); ++i)
    {
        for (const ref::Bond& b : ref::bonds(m, i, plo, phi))
        {
            if (!s.masks.get(m, i, b.i1))  { ++rv.nmasked; continue; }
            if (b.d >= plo && b.d <= phi)  ++rv.npairs;
            double sc = f[i] * f[b.i1] * mult[i];
            double w = s.w.fwhm(b.msd, b.d);
            if (w <= 0)  continue;
            double h = 2 * sqrt(M_LN2 / M_PI) / w;
            for (int k = 0; k < n; ++k)
            {
                double r = rv.rgrid[k], x = r - b.d;
                double y = h * exp(-4 * M_LN2 * x * x / (w * w));
                if (s.profile == "croppedgaussian")  y = fabs(x) < half * w ? y * hmod : 0;
                double rd = r / b.d;
                rv.extrdf[k] += sc * y * rd;
                rv.tolrdf[k] += 1.01 * s.prec * hmod * fabs(sc) * h * rd;
            }
        }
    }
    double sf2 = rv.totocc * rv.sfavg * rv.sfavg;
    for (int k = 0; k < n; ++k)
    {
        rv.extrdf[k] = sf2 == 0 ? 0 : rv.extrdf[k] / sf2;
        rv.tolrdf[k] = sf2 == 0 ? 0 : rv.tolrdf[k] / sf2;
    }
    return rv;
}

double maxabs(const vector<double>& v)
{
    double rv = 0;
    for (double x : v)  rv = max(rv, fabs(x));
    return rv;
}

vector<double> cut(const vector<double>& v, const Ref& r)
{
    if (v.empty())  return v;
    return vector<double>(v.begin() + r.lo - r.elo, v.end() - (r.ehi - r.hi));
}

// hist is the magnitude of earlier results, which leaves roundoff after fast updates
double check(Case& c, const ref::Model& m, const Spec& s, const PDFCalculator& p, double hist=0)
{
    Ref r = reference(m, s);
    if (r.totocc > 0 && fabs(r.sfavg) < 0.02 * r.maxf)  c.discard();
    const double dr = s.rstep;
    vector<double> grid;
    for (int k = r.lo; k < r.hi; ++k)  grid.push_back(k * dr);
    vt::checkCloseSeq("r grid", p.getRgrid(), grid, 1e-14, 1e-14);
    vt::checkClose("extended rmin", p.getExtendedRmin(), r.elo * dr, 1e-13, 1e-13);
    vt::checkClose("extended rmax", p.getExtendedRmax(), r.ehi * dr, 1e-13, 1e-13);
    vt::checkCloseSeq("extended r grid", p.getExtendedRgrid(), r.rgrid, 1e-14, 1e-14);
    double tol = 1e-9 * maxabs(r.extrdf) + maxabs(r.tolrdf) + 1e-11 * hist;
    vt::checkCloseSeq("extended RDF", p.getExtendedRDF(), r.extrdf, 0, tol);
    vt::checkCloseSeq("RDF", p.getRDF(), cut(r.extrdf, r), 0, tol);
    int n = r.rgrid.size();
    vector<double> rpr(n, 0.0), fb(n, 0.0);
    double tolr = 0;
    for (int k = 0; k < n; ++k)
    {
        if (r.rgrid[k] > 0)
        {
            rpr[k] = r.extrdf[k] / r.rgrid[k];
            tolr = max(tolr, r.tolrdf[k] / r.rgrid[k]);
        }
        fb[k] = rpr[k] + r.slope * r.rgrid[k];
    }
    tolr += 1e-11 * hist / dr + 1e-9 * maxabs(rpr) + 1e-10 * maxabs(fb) + 1e-12 * r.rho * 4 * M_PI * s.rmax;
    vt::checkCloseSeq("extended RDF per r", p.getExtendedRDFperR(), rpr, 0, tolr);
    vt::checkCloseSeq("RDF per r", p.getRDFperR(), cut(rpr, r), 0, tolr);
    // Q space
    int N = r.ehi ? pow2ceil(r.ehi) : 0;
    double dq = N ? M_PI / (N * dr) : 0;
    vt::checkClose("qstep", p.getQstep(), dq, 1e-13, 1e-13);
    double qmax = s.qmax > 0 ? min(s.qmax, M_PI / dr) : M_PI / dr;
    vt::checkClose("qmax", p.getQmax(), qmax, 1e-13, 1e-13);
    int nq = dq > 0 ? min(N, stepsUpTo(qmax, dq)) : 0;
    vector<double> qgrid;
    for (int k = 0; k < nq; ++k)  qgrid.push_back(k * dq);
    vt::checkCloseSeq("Q grid", p.getQgrid(), qgrid, 1e-12, 1e-13);
    vector<double> pad(r.elo, 0.0);
    pad.insert(pad.end(), fb.begin(), fb.end());
    vector<double> F = N ? sineSum(pad, N, dr, nq) : vector<double>();
    double tolf = tolr * n * dr + 1e-11 * maxabs(F);
    vt::checkCloseSeq("F(Q)", p.getF(), F, 0, tolf);
    // PDF
    int nqmin = dq > 0 ? stepsUpTo(s.qmin, dq) : 0;
    bool fft = qmax < M_PI / dr * (1 - 1e-12) || nqmin > 1;
    vector<double> g;
    double tolg = tolr;
    if (fft && N)
    {
        vector<double> F1 = F;
        for (int k = 0; k < min(nqmin, nq); ++k)  F1[k] = 0;
        vector<double> g0 = sineSum(F1, N, dq, r.ehi);
        for (double& x : g0)  x *= 2 / M_PI;
        g.assign(g0.begin() + r.elo, g0.end());
        tolg = tolf * nq * dq * 2 / M_PI + 1e-11 * maxabs(g0);
        c.label("band limited");
    }
    else  g = fb;
    double emx = 0;
    for (int k = 0; k < n; ++k)
    {
        double e = envelope(s.env, r.rgrid[k]);
        g[k] *= e;
        emx = max(emx, fabs(e));
    }
    tolg *= max(1.0, emx);
    vt::checkCloseSeq("extended PDF", p.getExtendedPDF(), g, 0, tolg);
    vt::checkCloseSeq("PDF", p.getPDF(), cut(g, r), 0, tolg);
    if (r.npairs >= 5 && maxabs(r.extrdf) > 1e-3 && tolg < 1e-3 * maxabs(g))  c.nontrivial();
    c.label(s.w.type);
    c.label(s.table);
    if (r.nmasked)  c.label("masked pairs");
    if (r.unlimited)  c.label("unlimited pair range");
    if (s.w.growing())  c.label("widths growing with r");
    if (grid.empty())  c.label("empty range");
    return maxabs(r.extrdf);
}

}   // namespace


VT_PROP(pairsum, "at least 5 pairs in range, non-zero RDF and tolerance below 0.1 % of the PDF", 60000, 1200000)
{
    bool fft = c.flag();
    GenOpts so = structureOpts(PDF);
    so.maxsites = c.oneof({4, 7});
    ref::Model m = genModel(c, so);
    if (ref::hasAmbiguousSelf(m))  c.discard();
    Spec s = genSpec(c, m, fft);
    PDFCalculator p;
    if (c.chance(1, 3))  p.setEvaluatorType(BASIC);
    apply(c, p, s, true);
    c.note() << m.str() << s.str() << "\n";
    StructureAdapterPtr stru = ref::build(m);
    switch (c.below(3))
    {
        case 0:
            p.eval(stru);
            break;
        case 1:
            p.setStructure(stru);
            p.eval();
            p.eval();
            break;
        default:
            p.setStructure(stru);
            p.eval();
    }
    double hist = check(c, m, s, p);
    if (c.chance(1, 3))
    {
        // another configuration or structure on the same calculator
        if (c.flag())
        {
            string what = mutateModel(c, m, so);
            if (!validModel(m, so) || ref::hasAmbiguousSelf(m))  return;
            s.masks = Masks();
            s.masks.apply(p);
            c.note() << what << "\n" << m.str();
            stru = ref::build(m);
        }
        else
        {
            s = genSpec(c, m, fft);
            apply(c, p, s, false);
        }
        c.note() << "again " << s.str() << "\n";
        p.eval(stru);
        check(c, m, s, p, hist);
    }
}


// A partial r-range gives the same results as the wide one.
VT_PROP(ranges, "overlapping r-range with non-zero PDF", 20000, 400000)
{
    GenOpts so = structureOpts(PDF);
    so.maxsites = 4;
    so.maxcell = 12;
    so.maxU = 0.01;
    ref::Model m = genModel(c, so);
    if (ref::hasAmbiguousSelf(m))  c.discard();
    Spec s = genSpec(c, m, false);
    s.mext = 50;
    s.w = genWidth(c, false);
    s.rmin = 0;
    s.rmax = 7.0003;
    PDFCalculator a, b;
    apply(c, a, s, true);
    apply(c, b, s, true);
    StructureAdapterPtr stru = ref::build(m);
    a.eval(stru);
    double lo = c.real(0, 6.5), hi = lo + c.real(0, 2.5);
    hi = min(hi, 7.0);
    c.note() << m.str() << s.str() << "\n" << lo << " " << hi << "\n";
    b.setRmin(lo);
    b.setRmax(hi);
    b.eval(stru);
    vector<double> ra = a.getRgrid(), rb = b.getRgrid();
    vector<double> ga = a.getPDF(), gb = b.getPDF(), fa = a.getRDF(), fb = b.getRDF();
    double mx = max(maxabs(ga), maxabs(fa));
    Ref rf = reference(m, s);
    if (rf.totocc > 0 && fabs(rf.sfavg) < 0.02 * rf.maxf)  c.discard();
    double tol = 1e-9 * mx + 2 * maxabs(rf.tolrdf);
    double lowr = 1;
    for (double x : ra)  if (x > 0 && !rb.empty() && x >= rb[0])  { lowr = min(lowr, x); break; }
    size_t ia = 0;
    double seen = 0;
    for (size_t k = 0; k < rb.size(); ++k)
    {
        while (ia < ra.size() && ra[ia] < rb[k] - 1e-9)  ++ia;
        VT_CHECK(ia < ra.size() && fabs(ra[ia] - rb[k]) < 1e-9, "grids do not match at " << rb[k]);
        vt::checkClose("PDF at " + vt::str(rb[k]), gb[k], ga[ia], 0, tol / lowr);
        vt::checkClose("RDF at " + vt::str(rb[k]), fb[k], fa[ia], 0, tol);
        seen = max(seen, fabs(fa[ia]));
    }
    for (size_t k = 0; k < ra.size(); ++k)
        if (ra[k] > lo + 1e-9 && ra[k] < hi - 1e-9)
            VT_CHECK(find_if(rb.begin(), rb.end(), [&](double x) { return fabs(x - ra[k]) < 1e-9; }) != rb.end(), "missing " << ra[k]);
    if (seen > 1e-6)  c.nontrivial();
}


// Total scattering of zero average factor is not defined, results are zero.
VT_PROP(zeroaverage, "pair sum is not zero", 4000, 40000)
{
    GenOpts so = structureOpts(PDF);
    so.minsites = 2;
    so.maxsites = 6;
    so.types = {"C", "O"};
    ref::Model m = genModel(c, so);
    if (ref::hasAmbiguousSelf(m))  c.discard();
    vector<int> mult = ref::multiplicities(m);
    map<string, double> n;
    for (size_t i = 0; i < m.sites.size(); ++i)
    {
        m.sites[i].occ = 1;
        n[m.sites[i].type] += mult[i];
    }
    if (n.size() < 2)  c.discard();
    double unit = c.oneof({1.0, 0.5, -2.0});
    PDFCalculator p;
    p.setBaselineByType(c.oneof<const char*>({"zero", "linear"}));
    // factors are stored as ratios to the standard value, keep them exact
    p.setScatteringFactorTableByType("electronnumber");
    p.getScatteringFactorTable()->setCustomAs("C", "C", 48 * n["O"] * unit);
    p.getScatteringFactorTable()->setCustomAs("O", "O", -48 * n["C"] * unit);
    p.setRmax(4.0007);
    p.setQmax(c.oneof({8.0, 15.0}));
    if (c.flag())  p.setQmin(1.0);
    c.note() << m.str() << " unit " << unit << "\n";
    p.eval(ref::build(m));
    if (maxabs(p.value()) > 0)  c.nontrivial();
    for (double x : p.getExtendedRDF())  VT_CHECK(x == 0, "extended RDF is " << x);
    for (double x : p.getRDF())  VT_CHECK(x == 0, "RDF is " << x);
    for (double x : p.getRDFperR())  VT_CHECK(x == 0, "RDF per r is " << x);
    if (p.getQmin() == 0 && p.getBaseline()->type() == "zero")
        for (double x : p.getPDF())  VT_CHECK(x == 0, "PDF is " << x);
    for (double x : p.getPDF())  VT_CHECK(isfinite(x), "PDF is not finite");
}
