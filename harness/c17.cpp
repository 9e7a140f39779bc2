// C17 Sine transforms and Q/r grids are exact
#include "calc.hpp"
#include "pdfref.hpp"
#include <diffpy/srreal/PDFUtils.hpp>

using namespace std;
using namespace calc;
using namespace diffpy::srreal;

namespace {

QuantityType genSignal(Case& c, int n)
{
    QuantityType g(n, 0.0);
    int kind = c.below(4);
    double a = c.oneof({1.0, 1e-6, 1e5}) ;
    int k0 = n ? int(c.below(n)) : 0;
    uint64_t x = c.below(1u << 30) * 2 + 1;
    for (int i = 0; i < n; ++i)
    {
        // cheap generator that depends on a single choice
        x = x * 6364136223846793005ull + 1442695040888963407ull;
        double u = double(x >> 11) / 9007199254740992.0 - 0.5;
        switch (kind)
        {
            case 0: g[i] = u; break;
            case 1: g[i] = (i == k0); break;
            case 2: g[i] = sin(0.37 * i) * exp(-0.01 * i); break;
            case 3: g[i] = (u > 0.3) ? u : 0; break;
        }
        g[i] *= a;
    }
    return g;
}

double maxabs(const QuantityType& v)
{
    double rv = 0;
    for (double x : v)  rv = max(rv, fabs(x));
    return rv;
}

int genLength(Case& c)
{
    switch (c.below(4))
    {
        case 0: return c.range(0, 9);
        case 1: return c.range(10, 300);
        case 2: return (1 << c.range(0, 11)) + c.range(-1, 1);
        default: return c.range(300, 3000);
    }
}

// f_k = dr * sum_j g_j sin(pi j k / N)
double term(const QuantityType& g, double dr, int pad, int N, int k)
{
    double s = 0;
    for (size_t j = 0; j < g.size(); ++j)
    {
        long ph = (long(j) + pad) * k % (2 * N);
        if (ph % N == 0)  continue;
        s += g[j] * sin(M_PI * ph / N);
    }
    return s * dr;
}

// reference count of grid points, whose limits are either clearly between
// the multiples of the step or within roundoff of a multiple
struct Limit
{
    double x = 0;
    int n = 0;              // multiples of the step below the limit
};

Limit genLimit(Case& c, double step, int nmax)
{
    Limit rv;
    int n = c.range(0, nmax);
    rv.n = n;
    switch (c.below(6))
    {
        case 0:
            rv.x = n * step;
            break;
        case 1:
            // decimal notation
            rv.x = strtod(vt::str(round(n * step * 1e6) / 1e6).c_str(), 0);
            if (fabs(rv.x - n * step) > 1e-12)  rv.x = n * step;
            break;
        case 2:
            for (int i = 0; i < n; ++i)  rv.x += step;
            if (fabs(rv.x - n * step) > 1e-9)  rv.x = n * step;
            break;
        case 3:
            rv.x = n * step;
            for (int i = c.range(1, 3); i; --i)  rv.x = nextafter(rv.x, n ? c.oneof({0.0, 1e9}) : 1e9);
            c.label("off by roundoff");
            break;
        case 4:
            rv.x = n / (1 / step);
            break;
        default:
            rv.x = (n + c.real(0.02, 0.98)) * step;
            rv.n = n + 1;
            return rv;
    }
    if (rv.x != n * step)  c.label("limit differs by roundoff");
    return rv;
}

int stepsBelow(Case& c, double x, double step)
{
    double t = x / step;
    if (fabs(t - round(t)) < 1e-12 * t)  return int(round(t));
    if (fabs(t - round(t)) * min(1.0, step) < 1e-6)  c.discard();
    return int(ceil(t));
}

double genStep(Case& c)
{
    switch (c.below(3))
    {
        case 0: return c.oneof({0.01, 0.1, 0.05, 0.02, 0.03, 0.25, 1.0});
        case 1: return 1.0 / c.range(1, 200);
        default: return c.logreal(0.004, 1);
    }
}

void checkGrid(const string& what, const QuantityType& g, double step, int lo, int hi)
{
    int n = max(0, hi - lo);
    if (int(g.size()) != n)
        vt::fail(what + " of step " + vt::str(step) + " has " + vt::str(g.size()) + " points, expected " +
                vt::str(n) + (g.empty() ? "" : ", points " + vt::str(g.front()) + " to " + vt::str(g.back())));
    for (int i = 0; i < n; ++i)
        VT_CHECK(fabs(g[i] - (lo + i) * step) <= 1e-15 * (lo + i) * step, what << ": point " << i << " is " <<
                g[i] << ", expected " << (lo + i) * step);
}

}   // namespace


VT_PROP(transform, "at least 3 points and a non-zero signal", 90000, 1500000)
{
    int n = genLength(c);
    QuantityType g = genSignal(c, n);
    double dr = c.chance(1, 3) ? c.oneof({0.01, 0.1, 1.0}) : c.logreal(1e-3, 2);
    int pad = c.chance(1, 2) ? 0 : c.range(0, 200);
    bool back = c.flag();
    c.note() << (back ? "F to G " : "G to F ") << n << " points, step " << dr << " lower index " << pad << "\n";
    if (n && n < 20)  c.note() << vt::strv(g);
    double rmin = pad * dr;
    if (pad && c.flag())  rmin += c.real(-0.3, 0.3) * dr;
    QuantityType f = back ? fftftog(g, dr, rmin) : fftgtof(g, dr, rmin);
    if (pad == 0 && c.flag())
    {
        QuantityType f1 = back ? fftftog(g, dr) : fftgtof(g, dr);
        VT_CHECK(f1 == f, "default lower limit");
    }
    if (n == 0)
    {
        VT_CHECK(f.empty(), "transform of no data");
        return;
    }
    int N = pdfref::pow2ceil(n + pad);
    VT_CHECK(int(f.size()) == N, "size " << f.size() << ", expected " << N);
    double sc = back ? 2 / M_PI : 1;
    double tol = 1e-13 * dr * maxabs(g) * n * sc + 1e-300;
    int nk = min(N, N < 64 ? N : 12);
    for (int i = 0; i < nk; ++i)
    {
        int k = nk == N ? i : i < 2 ? i : i < 4 ? N - i + 1 : int(c.below(N));
        double e = sc * term(g, dr, pad, N, k);
        if (!(fabs(f[k] - e) <= tol))
            vt::fail("point " + vt::str(k) + " of " + vt::str(N) + " is " + vt::str(f[k]) + ", expected " + vt::str(e));
    }
    VT_CHECK(fabs(f[0]) <= tol, "value at zero " << f[0]);
    // non-zero lower limit equals padding with zeros
    QuantityType gp(pad + n, 0.0);
    copy(g.begin(), g.end(), gp.begin() + pad);
    QuantityType fp = back ? fftftog(gp, dr) : fftgtof(gp, dr);
    vt::checkCloseSeq("padded transform", f, fp, 1e-13, 1e-300);
    // linear
    QuantityType h = genSignal(c, n), s(n);
    double a = c.sreal(3), b = c.sreal(3);
    for (int i = 0; i < n; ++i)  s[i] = a * g[i] + b * h[i];
    QuantityType fh = back ? fftftog(h, dr, rmin) : fftgtof(h, dr, rmin);
    QuantityType fs = back ? fftftog(s, dr, rmin) : fftgtof(s, dr, rmin);
    double tl = 1e-12 * dr * n * (3 * maxabs(g) + 3 * maxabs(h)) + 1e-300;
    for (int k = 0; k < N; ++k)
        VT_CHECK(fabs(fs[k] - a * f[k] - b * fh[k]) <= tl, "transform is not linear at " << k);
    // forward and backward differ by normalization
    QuantityType fo = back ? fftgtof(g, dr, rmin) : fftftog(g, dr, rmin);
    double ratio = back ? M_PI / 2 : 2 / M_PI;
    for (int k = 0; k < N; ++k)
        VT_CHECK(vt::close(fo[k], ratio * f[k], 1e-14, 0), "normalization at " << k);
    // inverse
    double dq = M_PI / (N * dr);
    gp.resize(N, 0.0);
    gp[0] = 0;
    QuantityType g2 = back ? fftgtof(f, dq) : fftftog(f, dq);
    VT_CHECK(int(g2.size()) == N, "size of the inverse");
    double ti = 1e-12 * (1 + log2(N)) * maxabs(g);
    for (int j = 0; j < N; ++j)
        VT_CHECK(fabs(g2[j] - gp[j]) <= ti, "round trip at " << j << " gives " << g2[j] << ", expected " << gp[j]);
    if (pad)  c.label("nonzero lower limit");
    if (n >= 3 && maxabs(g) > 0)  c.nontrivial();
}


VT_PROP(rgrid, "at least 2 grid points", 400000, 6000000)
{
    bool debye = c.flag();
    PDFCalculator pc;
    DebyePDFCalculator dc;
    PairQuantity& q = debye ? static_cast<PairQuantity&>(dc) : pc;
    double step = genStep(c);
    int nmax = min(c.oneof({40, 400, 1500}), int(100 / step));
    Limit hi = genLimit(c, step, nmax);
    Limit lo = c.chance(1, 3) ? Limit() : genLimit(c, step, hi.n ? hi.n : 1);
    c.note() << (debye ? "debye" : "pdf") << " rstep " << step << vt::str(" rmin ") << vt::str(lo.x) << " rmax " << vt::str(hi.x) << "\n";
    for (int k : c.permutation(3))
    {
        bool attr = c.flag();
        if (k == 0)
        {
            if (attr)  q.setDoubleAttr("rstep", step);
            else if (debye)  dc.setRstep(step);
            else  pc.setRstep(step);
        }
        if (k == 1)
        {
            if (attr)  q.setDoubleAttr("rmin", lo.x);
            else  q.setRmin(lo.x);
        }
        if (k == 2)
        {
            if (attr)  q.setDoubleAttr("rmax", hi.x);
            else  q.setRmax(hi.x);
        }
    }
    QuantityType r = debye ? dc.getRgrid() : pc.getRgrid();
    checkGrid("r-grid", r, step, lo.n, hi.n);
    // exact limits
    for (double x : r)
        VT_CHECK(x >= lo.x - 1e-7 && x < hi.x, "grid point " << x << " is outside of the range");
    // results are on the same grid
    if (c.chance(1, 4) && hi.n * step < 15 && hi.n < 400)
    {
        AtomicStructureAdapterPtr mol(new AtomicStructureAdapter);
        Atom a;
        a.atomtype = "C";
        a.uij_cartn = 0.01 * R3::identity();
        mol->append(a);
        a.xyz_cartn = R3::Vector(0, 0.3, 1.1);
        mol->append(a);
        q.eval(mol);
        QuantityType p = debye ? dc.getPDF() : pc.getPDF();
        VT_CHECK(p.size() == r.size(), "PDF has " << p.size() << " points for grid of " << r.size());
        p = debye ? dc.getRDF() : pc.getRDF();
        VT_CHECK(p.size() == r.size(), "RDF has " << p.size() << " points for grid of " << r.size());
        QuantityType r1 = debye ? dc.getRgrid() : pc.getRgrid();
        VT_CHECK(r1 == r, "r-grid changed in the evaluation");
        QuantityType f = debye ? dc.getF() : pc.getF();
        QuantityType qg = debye ? dc.getQgrid() : pc.getQgrid();
        VT_CHECK(f.size() == qg.size(), "F has " << f.size() << " points, Q-grid " << qg.size());
        c.label("evaluated");
    }
    c.label(debye ? "debye" : "pdf");
    if (r.size() > 1)  c.nontrivial();
}


VT_PROP(qgrid, "at least 2 grid points", 400000, 6000000)
{
    if (c.flag())
    {
        // Debye calculator with custom step
        DebyePDFCalculator dc;
        double step = genStep(c);
        Limit hi = genLimit(c, step, min(800, int(50 / step)));
        // limit in the Q range does not shift the grid
        double qmin = c.chance(1, 3) ? c.real(0, 1) * hi.x : 0.0;
        c.note() << "debye qstep " << step << " qmax " << vt::str(hi.x) << "\n";
        for (int k : c.permutation(3))
        {
            if (k == 0)
            {
                if (c.flag())  dc.setQstep(step);
                else  dc.setDoubleAttr("qstep", step);
            }
            if (k == 1)  dc.setQmax(hi.x);
            if (k == 2)  dc.setQmin(qmin);
        }
        // the step may be refined so that F covers the range of r
        double qs = dc.getQstep();
        if (qs != step)
        {
            VT_CHECK(qs < step, "step " << qs << " for requested " << step);
            c.label("refined step");
            hi.n = stepsBelow(c, hi.x, qs);
        }
        QuantityType q = dc.getQgrid();
        checkGrid("Q-grid", q, qs, 0, hi.n);
        if (q.size() > 1)  c.nontrivial();
        c.label("debye");
    }
    else
    {
        PDFCalculator pc;
        double rstep = c.logreal(0.01, 0.3);
        pc.setRstep(rstep);
        pc.setRmax(c.real(0.5, 12));
        if (c.flag())  pc.setRmin(c.real(0, 5));
        if (c.flag())  pc.setQmax(c.real(1, 30));
        int rounds = c.range(0, 2);
        int hn = -1;
        double step = pc.getQstep();
        for (int k = 0; k < rounds && step > 0; ++k)
        {
            double s0 = pc.getQstep();
            Limit hi = genLimit(c, s0, min(800, int(M_PI / rstep / s0) - 1));
            pc.setQmax(hi.x);
            hn = hi.n;
            if (hi.x == 0)  hn = -1;
            step = pc.getQstep();
            if (step != s0)
            {
                // range of r depends on Qmax
                hn = stepsBelow(c, pc.getQmax(), step);
                c.label("changed step");
            }
        }
        if (step == 0)
        {
            VT_CHECK(pc.getRgrid().empty(), "zero step for a range of " << pc.getRgrid().size() << " points");
            VT_CHECK(pc.getQgrid().empty(), "Q-grid for an empty range");
            return;
        }
        if (hn < 0)  hn = stepsBelow(c, pc.getQmax(), step);
        // step follows from the range of r padded to a power of 2
        double np = M_PI / (step * rstep);
        int N = pdfref::pow2ceil(int(round(np)));
        VT_CHECK(fabs(np - N) < 1e-9 * N, "Q step " << step << " does not match " << np << " points");
        VT_CHECK(N >= int(pc.getExtendedRgrid().empty() ? 1 :
                    round(pc.getExtendedRgrid().back() / rstep)), "grid is too short");
        c.note() << "pdf rstep " << rstep << " qstep " << vt::str(step) << " qmax " << vt::str(pc.getQmax()) << "\n";
        if (c.chance(1, 3))  pc.setQmin(c.real(0, 1) * pc.getQmax());
        QuantityType q = pc.getQgrid();
        checkGrid("Q-grid", q, step, 0, hn);
        VT_CHECK(q.empty() || q.back() < M_PI / rstep, "Q grid above the limit");
        if (q.size() > 1)  c.nontrivial();
        c.label("pdf");
    }
}
