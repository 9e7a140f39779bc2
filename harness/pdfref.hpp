// pdfref.hpp - independent formulas of peak widths, envelopes, sine
// transforms and r-limits for the PDF checks.
#ifndef PDFREF_HPP_INCLUDED
#define PDFREF_HPP_INCLUDED

#include "calc.hpp"

namespace pdfref {

using std::string;
using std::vector;
using std::map;


const double SIG2FWHM = 2 * std::sqrt(2 * std::log(2.0));

struct Width
{
    string type = "jeong";
    double width = 0;
    double d1 = 0, d2 = 0, qb = 0, qbs = 0;

    double ratio(double r) const
    {
        return r < 1e-15 ? 0 : 1 - d1 / r - d2 / (r * r) + qb * r * qb * r;
    }
    double fwhm(double msd, double r) const
    {
        if (type == "constant")  return width;
        double w = msd > 0 ? SIG2FWHM * std::sqrt(msd) : 0;
        if (type == "debye-waller")  return w;
        double x = ratio(r);
        return x <= 0 ? 0 : std::sqrt(x) * w + std::pow(qbs * r, 2);
    }
    // bound on the width of pairs in the range
    double maxfwhm(double maxu, double rmin, double rmax) const
    {
        if (type == "constant")  return width;
        double w = maxu > 0 ? SIG2FWHM * std::sqrt(2 * maxu) : 0;
        if (type == "debye-waller")  return w;
        return w * std::sqrt(std::max(1.0, std::max(ratio(rmin), ratio(rmax)))) +
            std::pow(qbs * rmax, 2);
    }
    bool growing() const { return type == "jeong" && (qb != 0 || qbs != 0 || d1 < 0 || d2 < 0); }
    void apply(sr::PeakWidthModelOwner& o, bool byobject) const
    {
        if (byobject)
        {
            sr::PeakWidthModelPtr p = sr::PeakWidthModel::createByType(type);
            attrs(*p);
            o.setPeakWidthModel(p);
        }
        else
        {
            o.setPeakWidthModelByType(type);
            attrs(*o.getPeakWidthModel());
        }
    }
    void attrs(diffpy::Attributes& a) const
    {
        if (type == "constant")  a.setDoubleAttr("width", width);
        if (type != "jeong")  return;
        a.setDoubleAttr("delta1", d1);
        a.setDoubleAttr("delta2", d2);
        a.setDoubleAttr("qbroad", qb);
        a.setDoubleAttr("qbroad_seperable", qbs);
    }
    string str() const
    {
        return type + vt::strv(vector<double>({width, d1, d2, qb, qbs}));
    }
};

inline Width genWidth(Case& c, bool grow)
{
    Width w;
    w.type = c.oneof<const char*>({"jeong", "debye-waller", "constant", "jeong"});
    w.width = c.oneof({0.15, 0.3, 0.07});
    if (w.type == "jeong")
    {
        w.d1 = c.oneof({0.0, 0.4, 1.3});
        w.d2 = c.oneof({0.0, 0.5, 2.1});
        if (grow && c.chance(1, 3))  w.qb = c.oneof({0.02, 0.1});
        if (grow && c.chance(1, 4))  w.qbs = c.oneof({0.02, 0.07});
    }
    return w;
}

typedef map<string, double> Envelopes;

inline double envelope(const Envelopes& e, double r)
{
    double rv = 1;
    for (auto& kv : e)
    {
        double p = kv.second;
        if (kv.first == "scale")  rv *= p;
        if (kv.first == "qresolution" && p > 0)  rv *= std::exp(-r * r * p * p / 2);
        if (kv.first == "stepcut" && p > 0 && r > p)  rv = 0;
        if (kv.first == "sphericalshape" && p > 0)
        {
            double x = r / p;
            rv *= x > 1 ? 0 : 1 - 1.5 * x + 0.5 * x * x * x;
        }
    }
    return rv;
}

inline const char* envattr(const string& e)
{
    return e == "scale" ? "scale" : e == "qresolution" ? "qdamp" :
        e == "stepcut" ? "stepcut" : "spdiameter";
}

inline Envelopes genEnvelopes(Case& c)
{
    Envelopes e;
    e["scale"] = 1;
    e["qresolution"] = 0;
    if (c.chance(1, 3))  e["scale"] = c.oneof({0.5, 2.25, -1.0});
    if (c.chance(1, 3))  e["qresolution"] = c.oneof({0.05, 0.2, 0.01});
    if (c.chance(1, 4))  e["sphericalshape"] = c.oneof({8.3, 3.7, 25.1});
    if (c.chance(1, 6))  e["stepcut"] = c.oneof({3.777, 2.111, 0.0});
    if (c.chance(1, 8))  e.erase(c.oneof<const char*>({"scale", "qresolution"}));
    return e;
}

inline void applyEnvelopes(sr::PDFEnvelopeOwner& o, const Envelopes& e)
{
    o.clearEnvelopes();
    for (auto& kv : e)
    {
        o.addEnvelopeByType(kv.first);
        o.getEnvelopeByType(kv.first)->setDoubleAttr(envattr(kv.first), kv.second);
    }
}

// largest mean square displacement along any direction
inline double maxU(const ref::Model& m)
{
    double rv = 0;
    for (auto& s : m.sites)
    {
        // power iteration on U^2^k is simple and independent of the library
        ref::M3 a = s.U;
        double mx = 0;
        for (auto& r : a)  for (double x : r)  mx = std::max(mx, std::fabs(x));
        if (mx == 0)  continue;
        // largest eigenvalue by bisection on the characteristic polynomial:
        // x is above all eigenvalues iff xI - U is positive definite
        double lo = 0, hi = 3 * mx;
        for (int it = 0; it < 80; ++it)
        {
            double x = 0.5 * (lo + hi);
            ref::M3 b = ref::diag(x);
            for (int i = 0; i < 3; ++i)  for (int j = 0; j < 3; ++j)  b[i][j] -= a[i][j];
            bool pd = b[0][0] > 0 && b[0][0] * b[1][1] - b[0][1] * b[1][0] > 0 && ref::det(b) > 0;
            (pd ? hi : lo) = x;
        }
        rv = std::max(rv, hi);
    }
    return rv;
}

// G_k = sum_j dx * y_j * sin(pi j k / N), for N points padded from y
inline vector<double> sineSum(const vector<double>& y, int N, double dx, int kmax)
{
    vector<double> tb(2 * N);
    for (int i = 0; i < 2 * N; ++i)  tb[i] = std::sin(M_PI * i / N);
    tb[0] = tb[N] = 0;
    vector<double> rv(kmax, 0.0);
    for (int k = 0; k < kmax; ++k)
    {
        double s = 0;
        long ph = 0;
        for (size_t j = 0; j < y.size(); ++j)
        {
            s += y[j] * tb[ph];
            ph += k;
            while (ph >= 2 * N)  ph -= 2 * N;
        }
        rv[k] = s * dx;
    }
    return rv;
}

inline int pow2ceil(int n)
{
    int rv = 1;
    while (rv < n)  rv *= 2;
    return rv;
}

// number of multiples of dx in [0, x), tolerant to roundoff at the lower side
inline int stepsUpTo(double x, double dx) { return int(std::ceil(x / dx - 1e-9)); }

// masks by pairs of sites or by types
struct Masks
{
    bool byType = false;
    bool all = true;
    map<std::pair<string,string>, bool> tp;
    map<std::pair<int,int>, bool> pr;
    bool get(const ref::Model& m, int i, int j) const
    {
        if (byType)
        {
            auto k = std::minmax(m.sites[i].type, m.sites[j].type);
            auto it = tp.find(std::make_pair(k.first, k.second));
            return it == tp.end() ? all : it->second;
        }
        auto it = pr.find(std::make_pair(std::min(i, j), std::max(i, j)));
        return it == pr.end() ? all : it->second;
    }
    void apply(PairQuantity& q) const
    {
        q.maskAllPairs(all);
        for (auto& kv : tp)  q.setTypeMask(kv.first.first, kv.first.second, kv.second);
        for (auto& kv : pr)  q.setPairMask(kv.first.first, kv.first.second, kv.second);
    }
    string str() const
    {
        std::ostringstream o;
        o << "masks all " << all;
        for (auto& kv : tp)  o << " " << kv.first.first << "-" << kv.first.second << "=" << kv.second;
        for (auto& kv : pr)  o << " " << kv.first.first << "," << kv.first.second << "=" << kv.second;
        return o.str();
    }
};

inline Masks genMasks(Case& c, const ref::Model& m)
{
    Masks k;
    if (m.sites.empty() || !c.chance(1, 3))  return k;
    k.all = c.flag();
    k.byType = c.flag();
    int n = c.range(1, 4);
    for (int i = 0; i < n; ++i)
    {
        int a = c.below(m.sites.size()), b = c.below(m.sites.size());
        bool v = c.flag();
        if (k.byType)
        {
            auto t = std::minmax(m.sites[a].type, m.sites[b].type);
            k.tp[std::make_pair(t.first, t.second)] = v;
        }
        else  k.pr[std::make_pair(std::min(a, b), std::max(a, b))] = v;
    }
    return k;
}

}   // namespace pdfref

#endif
