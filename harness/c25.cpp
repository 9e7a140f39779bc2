// C25: vector, matrix and tolerance arithmetic
#include "common.hpp"
#include <boost/functional/hash.hpp>
#include <diffpy/mathutils.hpp>
#include <diffpy/srreal/R3linalg.hpp>
#include <diffpy/srreal/QuantityType.hpp>

using namespace std;
using namespace ref;
namespace mu = diffpy::mathutils;

static double genEntry(Case& c, double scale)
{
    switch (c.below(5))
    {
        case 0: return 0;
        case 1: return scale * (c.range(0, 6) - 3);
        case 2: return scale * (c.flag() ? 1 : -1) * c.logreal(1e-4, 1e2);
        default: return scale * c.sreal(3);
    }
}

static V3 genVec(Case& c, double scale)
{ return v3(genEntry(c, scale), genEntry(c, scale), genEntry(c, scale)); }

static double maxabs(const M3& A)
{
    double m = 0;
    for (auto& r : A)  for (double x : r)  m = max(m, fabs(x));
    return m;
}

VT_PROP(linalg, "a non-singular matrix with at least 4 non-zero elements", 300000, 7500000)
{
    double scale = c.oneof({1.0, 1.0, 1e-3, 1e3, 7.0});
    M3 A;
    for (auto& r : A)  r = genVec(c, scale);
    V3 u = genVec(c, scale), v = genVec(c, c.oneof({1.0, 1e-2, 1e2}));
    c.note() << "A=" << ref::str(A) << " u=" << ref::str(u) << " v=" << ref::str(v);
    int nz = 0;
    for (auto& r : A)  for (double x : r)  nz += (x != 0);
    R3::Matrix M = toR3(A);
    R3::Vector U = toR3(u), W = toR3(v);
    double nn = norm(A[0]) * norm(A[1]) * norm(A[2]);
    double d = R3::determinant(M);
    vt::checkClose("determinant", d, det(A), 1e-10, 1e-13 * nn + 1e-300);
    // well conditioned matrices
    bool wellc = fabs(det(A)) > 1e-2 * nn && nn > 0;
    if (wellc)
    {
        if (nz > 3)  c.nontrivial();
        R3::Matrix I = R3::inverse(M);
        M3 Ai = fromR3(I);
        M3 P = mul(A, Ai), Q = mul(Ai, A);
        M3 E = inv(A);
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
        {
            vt::checkClose("inverse element", Ai[i][j], E[i][j], 1e-8, 1e-10 * maxabs(E));
            double cond = maxabs(A) * maxabs(E);
            vt::checkClose("A inv(A)", P[i][j], i == j, 0, 1e-11 * (1 + cond));
            vt::checkClose("inv(A) A", Q[i][j], i == j, 0, 1e-11 * (1 + cond));
        }
    }
    double nu = norm(u), nv = norm(v);
    vt::checkClose("norm", R3::norm(U), nu, 1e-12, 1e-300);
    vt::checkClose("dot", R3::dot(U, W), dot(u, v), 1e-12, 1e-13 * nu * nv);
    vt::checkClose("distance", R3::distance(U, W), norm(u - v), 1e-12, 1e-14 * (nu + nv));
    V3 x = fromR3(R3::cross(U, W)), xe = cross(u, v);
    V3 m1 = fromR3(R3::Vector(R3::mxvecproduct(M, U))), e1 = mul(A, u);
    V3 m2 = fromR3(R3::Vector(R3::mxvecproduct(U, M))), e2 = mul(u, A);
    R3::Vector fl = R3::floor(U);
    R3::Matrix prod = R3::prod(M, R3::Matrix(R3::trans(M)));
    M3 pe = mul(A, trans(A));
    for (int i = 0; i < 3; ++i)
    {
        vt::checkClose("cross", x[i], xe[i], 1e-12, 1e-13 * nu * nv);
        vt::checkClose("mxvecproduct(M, u)", m1[i], e1[i], 1e-12, 1e-13 * maxabs(A) * nu);
        vt::checkClose("mxvecproduct(u, M)", m2[i], e2[i], 1e-12, 1e-13 * maxabs(A) * nu);
        VT_CHECK(fl[i] == std::floor(u[i]), "floor of " << u[i]);
        for (int j = 0; j < 3; ++j)
            vt::checkClose("prod", prod(i, j), pe[i][j], 1e-12, 1e-13 * nu * nv + 1e-13 * maxabs(pe));
    }
    // results are returned by reference, yet they can be used as arguments
    V3 n1 = fromR3(R3::Vector(R3::mxvecproduct(M, R3::mxvecproduct(M, U))));
    V3 n2 = fromR3(R3::Vector(R3::mxvecproduct(R3::mxvecproduct(U, M), M)));
    V3 f1 = mul(A, e1), f2 = mul(e2, A);
    R3::Vector ff = R3::floor(R3::floor(U));
    for (int i = 0; i < 3; ++i)
    {
        double tol = 1e-12 * maxabs(A) * maxabs(A) * nu;
        vt::checkClose("mxvecproduct(M, mxvecproduct(M, u))", n1[i], f1[i], 1e-12, tol);
        vt::checkClose("mxvecproduct(mxvecproduct(u, M), M)", n2[i], f2[i], 1e-12, tol);
        VT_CHECK(ff[i] == std::floor(u[i]), "floor of floor of " << u[i]);
    }
    // list containers are accepted too
    double ua[3] = {u[0], u[1], u[2]}, va[3] = {v[0], v[1], v[2]};
    const double* up = ua; const double* vp = va;
    vt::checkClose("norm of array", R3::norm(up), nu, 1e-12, 1e-300);
    vt::checkClose("dot of arrays", R3::dot(up, vp), dot(u, v), 1e-12, 1e-13 * nu * nv);
    V3 xp = fromR3(R3::cross(up, vp));
    for (int i = 0; i < 3; ++i)
        vt::checkClose("cross of arrays", xp[i], xe[i], 1e-12, 1e-13 * nu * nv);
    VT_CHECK(R3::norm(R3::Vector(R3::zerovector)) == 0, "zero vector");
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
    {
        VT_CHECK(R3::identity()(i, j) == (i == j), "identity");
        VT_CHECK(R3::zeromatrix()(i, j) == 0, "zero matrix");
    }
}


VT_PROP(equality_hash, "equal pair built along a different path, or pair differing in one element", 200000, 4000000)
{
    V3 u = genVec(c, 1);
    M3 A;
    for (auto& r : A)  r = genVec(c, 1);
    V3 u1 = u;
    M3 A1 = A;
    int k = c.range(0, 3);      // 0 equal, 1 sign of zeros, 2 and 3 differ
    c.label(k == 0 ? "same" : k == 1 ? "signed-zero" : "different");
    c.nontrivial();
    int i = c.below(3), j = c.below(3);
    if (k == 1)
    {
        for (double& x : u1)  if (x == 0)  x = c.flag() ? -0.0 : 0.0;
        for (auto& r : A1)  for (double& x : r)  if (x == 0)  x = c.flag() ? -0.0 : 0.0;
    }
    if (k >= 2)
    {
        double d = (k == 2) ? 1e-9 + 1e-9 * fabs(u[i]) : 1.0;
        u1[i] += d;
        A1[i][j] += d + 1e-9 * fabs(A1[i][j]);
    }
    c.note() << "u=" << ref::str(u) << " u1=" << ref::str(u1) << " k=" << k;
    R3::Vector U = toR3(u), U1 = toR3(u1);
    R3::Matrix M = toR3(A), M1 = toR3(A1);
    bool eu = (u == u1), em = (A == A1);
    VT_CHECK((U == U1) == eu && (U != U1) == !eu, "vector equality");
    VT_CHECK((M == M1) == em && (M != M1) == !em, "matrix equality");
    VT_CHECK((U1 == U) == eu && (M1 == M) == em, "symmetry of equality");
    boost::hash<R3::Vector> hv;
    boost::hash<R3::Matrix> hm;
    if (eu)  VT_CHECK(hv(U) == hv(U1), "hash of equal vectors");
    if (em)  VT_CHECK(hm(M) == hm(M1), "hash of equal matrices");
    VT_CHECK(hv(U) == hv(R3::Vector(U)) && hm(M) == hm(R3::Matrix(M)), "hash of a copy");
}


VT_PROP(trig, "argument at or near a multiple of 30 degrees, or negative, or over 360", 300000, 7500000)
{
    double x;
    if (c.flag())
    {
        x = 30.0 * (c.range(0, 96) - 48);
        if (c.flag())  x += c.oneof({1e-13, -1e-13, 1e-8, -1e-8, 1e-3});
    }
    else  x = c.sreal(1500);
    if (x < 0 || x > 360 || fabs(remainder(x, 30)) < 1e-2)  c.nontrivial();
    c.note() << setprecision(17) << "x=" << x;
    double tol = 1e-12 * (1 + fabs(x) / 100);
    vt::checkClose("cosd", mu::cosd(x), cos(x * M_PI / 180), 0, tol);
    vt::checkClose("sind", mu::sind(x), sin(x * M_PI / 180), 0, tol);
    if (remainder(x, 30) == 0)
    {
        int n = int(x / 30);
        n = ((n % 12) + 12) % 12;
        const double cs[12] = {1, 2, 0.5, 0, -0.5, 2, -1, 2, -0.5, 0, 0.5, 2};
        if (cs[n] != 2)  VT_CHECK(mu::cosd(x) == cs[n], "exact cosine of " << x);
        int m = (n + 9) % 12;   // sin(x) = cos(x - 90)
        if (cs[m] != 2)  VT_CHECK(mu::sind(x) == cs[m], "exact sine of " << x);
    }
    // inverse functions
    double y = c.flag() ? 0.5 * (c.range(0, 4) - 2) : c.sreal(1);
    if (c.chance(1, 4))  y = max(-1.0, min(1.0, y + c.oneof({1e-14, -1e-14, 1e-9, -1e-9})));
    c.note() << " y=" << y;
    double ac = mu::acosd(y), as = mu::asind(y);
    vt::checkClose("acosd", ac, acos(y) * 180 / M_PI, 0, 1e-11);
    vt::checkClose("asind", as, asin(y) * 180 / M_PI, 0, 1e-11);
    if (y == 0)  VT_CHECK(ac == 90 && as == 0, "exact arc functions at 0");
    if (y == 0.5)  VT_CHECK(ac == 60 && as == 30, "exact arc functions at 0.5");
    if (y == -0.5)  VT_CHECK(ac == 120 && as == -30, "exact arc functions at -0.5");
    if (y == 1)  VT_CHECK(ac == 0 && as == 90, "exact arc functions at 1");
    if (y == -1)  VT_CHECK(ac == 180 && as == -90, "exact arc functions at -1");
}


VT_PROP(tolerance, "sequences that differ by an amount next to the tolerance", 300000, 7500000)
{
    double eps = c.oneof({-1.0, 1e-3, 1e-9, 0.25, 0.0});
    double e = eps < 0 ? mu::SQRT_DOUBLE_EPS : eps;
    double base = c.sreal(10);
    auto shift = [&]() -> double
    {
        // multiples of the tolerance that stay clear of the boundary
        double f = c.oneof({0.0, 0.5, -0.5, 0.9, -0.9, 1.1, -1.1, 3.0, -3.0});
        return f * (e > 0 ? e : 1e-9);
    };
    int n = c.range(1, 4);
    vector<double> a, b;
    vector<int> cmp;    // sign of the difference beyond the tolerance
    bool near = false;
    for (int i = 0; i < n; ++i)
    {
        double x = c.flag() ? base : c.sreal(10);
        double s = shift();
        a.push_back(x);
        b.push_back(x + s);
        double q = e > 0 ? e : 1e-10;
        cmp.push_back(fabs(s) > q ? (s > 0 ? -1 : 1) : 0);
        near = near || s != 0;
    }
    if (near)  c.nontrivial();
    c.note() << setprecision(17) << "eps=" << eps << " a=" << vt::strv(a) << " b=" << vt::strv(b);
    for (int i = 0; i < n; ++i)
    {
        bool q, g, l;
        if (eps < 0)
        {
            q = mu::eps_eq(a[i], b[i]); g = mu::eps_gt(a[i], b[i]); l = mu::eps_lt(a[i], b[i]);
        }
        else
        {
            q = mu::eps_eq(a[i], b[i], eps); g = mu::eps_gt(a[i], b[i], eps); l = mu::eps_lt(a[i], b[i], eps);
        }
        VT_CHECK(q == (cmp[i] == 0), "eps_eq of " << a[i] << " and " << b[i]);
        VT_CHECK(g == (cmp[i] > 0), "eps_gt of " << a[i] << " and " << b[i]);
        VT_CHECK(l == (cmp[i] < 0), "eps_lt of " << a[i] << " and " << b[i]);
        VT_CHECK((eps < 0 ? mu::eps_eq(b[i], a[i]) : mu::eps_eq(b[i], a[i], eps)) == q, "symmetry of eps_eq");
        VT_CHECK((eps < 0 ? mu::eps_lt(b[i], a[i]) : mu::eps_lt(b[i], a[i], eps)) == g, "eps_lt mirrors eps_gt");
    }
    mu::EpsilonLess less = eps < 0 ? mu::EpsilonLess() : mu::EpsilonLess(eps);
    mu::EpsilonEqual equal = eps < 0 ? mu::EpsilonEqual() : mu::EpsilonEqual(eps);
    int lex = 0;
    for (int i = 0; i < n && !lex; ++i)  lex = cmp[i];
    VT_CHECK(less(a, b) == (lex < 0), "EpsilonLess(a, b)");
    VT_CHECK(less(b, a) == (lex > 0), "EpsilonLess(b, a)");
    VT_CHECK(equal(a, b) == (lex == 0), "EpsilonEqual(a, b)");
    VT_CHECK(equal(b, a) == (lex == 0), "EpsilonEqual(b, a)");
    VT_CHECK(less(a[0], b[0]) == (cmp[0] < 0) && equal(a[0], b[0]) == (cmp[0] == 0), "scalar functors");
    // prefix
    vector<double> a1 = a;
    a1.push_back(c.sreal(1));
    VT_CHECK(!equal(a, a1) && !equal(a1, a), "EpsilonEqual of a prefix");
    VT_CHECK(less(a, a1) && !less(a1, a), "EpsilonLess of a prefix");
    // vectors and matrices, padded by equal elements
    R3::Vector u(0, 0, 0), v(0, 0, 0);
    R3::Matrix A(0, 0, 0, 0, 0, 0, 0, 0, 0), B(A);
    int off = c.range(0, 5);
    int lexv = 0;
    for (int i = 0; i < min(n, 3); ++i)
    {
        u[i] = a[i]; v[i] = b[i];
        if (!lexv)  lexv = cmp[i];
    }
    for (int i = 0; i < n; ++i)
    {
        A((i + off) / 3, (i + off) % 3) = a[i];
        B((i + off) / 3, (i + off) % 3) = b[i];
    }
    VT_CHECK(less(u, v) == (lexv < 0) && less(v, u) == (lexv > 0), "EpsilonLess of vectors");
    VT_CHECK(equal(u, v) == (lexv == 0) && equal(v, u) == (lexv == 0), "EpsilonEqual of vectors");
    VT_CHECK(less(A, B) == (lex < 0) && less(B, A) == (lex > 0), "EpsilonLess of matrices");
    VT_CHECK(equal(A, B) == (lex == 0) && equal(B, A) == (lex == 0), "EpsilonEqual of matrices");
}
