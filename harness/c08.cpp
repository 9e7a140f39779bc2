// C08: lattice geometry
#include "common.hpp"
#include <diffpy/srreal/Lattice.hpp>

using namespace std;
using namespace ref;
using diffpy::srreal::Lattice;

static GenOpts latOpts()
{
    GenOpts o;
    o.cellmin = 0.8;
    o.cellmax = 12;
    return o;
}

// compare all lattice attributes with the given base and lattice parameters
static void checkLattice(const Lattice& L, const M3& B)
{
    const double rt = 1e-8;
    double a = norm(B[0]), b = norm(B[1]), cc = norm(B[2]);
    double V = det(B);
    double ca = dot(B[1], B[2]) / b / cc, cb = dot(B[0], B[2]) / a / cc, cg = dot(B[0], B[1]) / a / b;
    double mx = max(a, max(b, cc));
    vt::checkClose("a", L.a(), a, rt);
    vt::checkClose("b", L.b(), b, rt);
    vt::checkClose("c", L.c(), cc, rt);
    vt::checkClose("alpha", L.alpha(), acos(ca) * 180 / M_PI, 0, 1e-6);
    vt::checkClose("beta", L.beta(), acos(cb) * 180 / M_PI, 0, 1e-6);
    vt::checkClose("gamma", L.gamma(), acos(cg) * 180 / M_PI, 0, 1e-6);
    vt::checkClose("cosalpha", L.cosalpha(), ca, 0, 1e-8);
    vt::checkClose("cosbeta", L.cosbeta(), cb, 0, 1e-8);
    vt::checkClose("cosgamma", L.cosgamma(), cg, 0, 1e-8);
    vt::checkClose("sinalpha", L.sinalpha(), sqrt(1 - ca * ca), 0, 1e-8);
    vt::checkClose("sinbeta", L.sinbeta(), sqrt(1 - cb * cb), 0, 1e-8);
    vt::checkClose("singamma", L.singamma(), sqrt(1 - cg * cg), 0, 1e-8);
    vt::checkClose("volume", L.volume(), V, rt);
    vt::checkClose("volumeNormal", L.volumeNormal(), V / (a * b * cc), rt);
    // reciprocal vectors are columns of the inverse base
    M3 Bi = inv(B);
    M3 R = trans(Bi);
    double rel[3] = {norm(R[0]), norm(R[1]), norm(R[2])};
    double rmx = max(rel[0], max(rel[1], rel[2]));
    vt::checkClose("ar", L.ar(), rel[0], rt);
    vt::checkClose("br", L.br(), rel[1], rt);
    vt::checkClose("cr", L.cr(), rel[2], rt);
    double car = dot(R[1], R[2]) / rel[1] / rel[2];
    double cbr = dot(R[0], R[2]) / rel[0] / rel[2];
    double cgr = dot(R[0], R[1]) / rel[0] / rel[1];
    vt::checkClose("cosalphar", L.cosalphar(), car, 0, 1e-7);
    vt::checkClose("cosbetar", L.cosbetar(), cbr, 0, 1e-7);
    vt::checkClose("cosgammar", L.cosgammar(), cgr, 0, 1e-7);
    vt::checkClose("sinalphar", L.sinalphar(), sqrt(1 - car * car), 0, 1e-7);
    vt::checkClose("sinbetar", L.sinbetar(), sqrt(1 - cbr * cbr), 0, 1e-7);
    vt::checkClose("singammar", L.singammar(), sqrt(1 - cgr * cgr), 0, 1e-7);
    vt::checkClose("alphar", L.alphar(), acos(car) * 180 / M_PI, 0, 1e-5);
    vt::checkClose("betar", L.betar(), acos(cbr) * 180 / M_PI, 0, 1e-5);
    vt::checkClose("gammar", L.gammar(), acos(cgr) * 180 / M_PI, 0, 1e-5);
    M3 base = fromR3(L.base()), rec = fromR3(L.recbase()), met = fromR3(L.metrics());
    M3 sb = fromR3(L.stdbase()), br = fromR3(L.baserot());
    M3 G = mul(B, trans(B));
    double par[6] = {L.a(), L.b(), L.c(), L.alpha(), L.beta(), L.gamma()};
    M3 sbe = baseFromPar(par);
    M3 sbr = mul(sb, br), rtr = mul(br, trans(br));
    const R3::Vector* va[3] = {&L.va(), &L.vb(), &L.vc()};
    const R3::Vector* vr[3] = {&L.var(), &L.vbr(), &L.vcr()};
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
    {
        vt::checkClose("base", base[i][j], B[i][j], 0, rt * mx);
        vt::checkClose("recbase", rec[i][j], Bi[i][j], 0, 10 * rt * rmx);
        vt::checkClose("metrics", met[i][j], G[i][j], 0, rt * mx * mx);
        vt::checkClose("stdbase", sb[i][j], sbe[i][j], 0, 1e-6 * mx);
        vt::checkClose("stdbase * baserot", sbr[i][j], B[i][j], 0, 1e-7 * mx);
        vt::checkClose("baserot orthogonal", rtr[i][j], i == j, 0, 1e-6);
        vt::checkClose("direct vector", (*va[i])[j], B[i][j], 0, rt * mx);
        vt::checkClose("reciprocal vector", (*vr[i])[j], R[i][j], 0, 10 * rt * rmx);
    }
    // longest diagonal
    double dmax = 0;
    for (int s = 0; s < 4; ++s)
        dmax = max(dmax, norm(mul(v3(s & 1 ? -1 : 1, s & 2 ? -1 : 1, 1), B)));
    vt::checkClose("ucMaxDiagonalLength", L.ucMaxDiagonalLength(), dmax, rt);
    V3 dg = fromR3(R3::Vector(L.ucMaxDiagonal()));
    for (double x : dg)  VT_CHECK(fabs(x) == 1, "cell diagonal " << ref::str(dg));
    vt::checkClose("norm of ucMaxDiagonal", norm(mul(dg, B)), dmax, rt);
}

static V3 genLV(Case& c)
{
    V3 f;
    for (double& x : f)
    {
        switch (c.below(6))
        {
            case 0: x = c.range(0, 4) - 2; break;
            case 1: x = (c.range(0, 48) - 24) / 12.0; break;
            case 2: x = c.sreal(100); break;
            case 3: x = c.range(0, 4) - 2 + c.oneof({1e-6, -1e-6, 1e-9, -1e-9, 1e-12, -1e-12}); break;
            default: x = c.sreal(3);
        }
    }
    return f;
}

static M3 genBase(Case& c, bool* rotated)
{
    GenOpts o = latOpts();
    double par[6];
    genLatPar(c, par, o);
    M3 B = baseFromPar(par);
    *rotated = c.flag();
    if (*rotated)  B = mul(B, genRotation(c));
    return B;
}

VT_PROP(geometry, "triclinic, monoclinic or hexagonal cell or a rotated base, or at least two settings in a row", 320000, 6400000)
{
    Lattice L;
    M3 rot = diag(1);
    M3 B = diag(1);
    int n = c.range(1, 3);
    bool skew = false;
    for (int k = 0; k < n; ++k)
    {
        int how = c.below(4);
        bool rtd;
        if (how < 2)
        {
            double p[6];
            genLatPar(c, p, latOpts());
            skew = skew || p[3] != 90 || p[4] != 90 || p[5] != 90;
            c.note() << "setLatPar(" << vt::strv(vector<double>(p, p + 6)) << ") ";
            if (k == 0 && how == 1)  { L = Lattice(p[0], p[1], p[2], p[3], p[4], p[5]); rot = diag(1); }
            else  L.setLatPar(p[0], p[1], p[2], p[3], p[4], p[5]);
            B = mul(baseFromPar(p), rot);
            VT_CHECK(L.a() == p[0] && L.b() == p[1] && L.c() == p[2], "lengths as set");
            VT_CHECK(L.alpha() == p[3] && L.beta() == p[4] && L.gamma() == p[5], "angles as set");
        }
        else if (how == 2)
        {
            B = genBase(c, &rtd);
            c.note() << "setLatBase(" << ref::str(B) << ") ";
            if (k == 0 && c.flag())  L = Lattice(toR3(B[0]), toR3(B[1]), toR3(B[2]));
            else  L.setLatBase(toR3(B[0]), toR3(B[1]), toR3(B[2]));
            M3 G = mul(B, trans(B));
            double par[6] = {sqrt(G[0][0]), sqrt(G[1][1]), sqrt(G[2][2])};
            par[3] = acos(G[1][2] / par[1] / par[2]) * 180 / M_PI;
            par[4] = acos(G[0][2] / par[0] / par[2]) * 180 / M_PI;
            par[5] = acos(G[0][1] / par[0] / par[1]) * 180 / M_PI;
            rot = mul(inv(baseFromPar(par)), B);
            skew = true;
        }
        else
        {
            // invalid bases are rejected without effect
            M3 X = genBase(c, &rtd);
            switch (c.below(4))
            {
                case 0: swap(X[0], X[1]); break;
                case 1: X[2] = X[0]; break;
                case 2: X[1] = v3(0, 0, 0); break;
                case 3: X[0] = -1.0 * X[0]; break;
            }
            c.note() << "invalid setLatBase(" << ref::str(X) << ") ";
            c.label("rejected-base");
            Lattice before = L;
            VT_THROWS(L.setLatBase(toR3(X[0]), toR3(X[1]), toR3(X[2])),
                    std::invalid_argument, "invalid base");
            VT_CHECK(L == before, "rejected base changed the lattice");
        }
        checkLattice(L, B);
    }
    if (skew || n > 1)  c.nontrivial();
}

VT_PROP(vectors, "skewed or rotated lattice with vectors outside of the unit cell", 480000, 9600000)
{
    bool rotated;
    M3 B = genBase(c, &rotated);
    Lattice L;
    L.setLatBase(toR3(B[0]), toR3(B[1]), toR3(B[2]));
    V3 u = genLV(c), v = genLV(c);
    c.note() << "B=" << ref::str(B) << " u=" << ref::str(u) << " v=" << ref::str(v);
    bool out = false;
    for (double x : u)  out = out || x < 0 || x >= 1;
    if (out && (rotated || fabs(B[0][1]) + fabs(B[0][2]) + fabs(B[1][2]) > 1e-3))  c.nontrivial();
    R3::Vector U = toR3(u), W = toR3(v);
    V3 uc = mul(u, B), vc = mul(v, B);
    double nu = norm(uc), nv = norm(vc);
    double Bn = max(norm(B[0]), max(norm(B[1]), norm(B[2])));
    double ub = Bn * (1 + fabs(u[0]) + fabs(u[1]) + fabs(u[2]));
    double vb = Bn * (1 + fabs(v[0]) + fabs(v[1]) + fabs(v[2]));
    const double rt = 1e-9;
    vt::checkClose("dot", L.dot(U, W), dot(uc, vc), 0, rt * ub * vb);
    if (nu > 1e-3 * ub)  vt::checkClose("norm", L.norm(U), nu, 1e-5, rt * ub);
    double dd = norm(uc - vc);
    if (dd > 1e-3 * (ub + vb))
        vt::checkClose("distance", L.distance(U, W), dd, 1e-5, rt * (ub + vb));
    VT_CHECK(L.distance(U, U) == 0, "distance of a vector from itself");
    double a1[3] = {u[0], u[1], u[2]}, a2[3] = {v[0], v[1], v[2]};
    const double *p1 = a1, *p2 = a2;
    vt::checkClose("dot of arrays", L.dot(p1, p2), dot(uc, vc), 0, rt * ub * vb);
    // angles, also of (anti)parallel vectors
    R3::Vector X = W;
    V3 xc = vc;
    if (c.chance(1, 3))
    {
        double f = c.oneof({2.0, -1.0, 0.3, -7.0, 1.0});
        X = toR3(f * u);
        xc = f * uc;
        c.label("parallel");
    }
    if (nu > 1e-3 * ub && norm(xc) > 1e-3 * vb)
    {
        double ca = dot(uc, xc) / nu / norm(xc);
        ca = max(-1.0, min(1.0, ca));
        double ea = acos(ca);
        double sa = norm(cross(uc, xc)) / nu / norm(xc);
        double tol = min(1e-3, 1e-7 / max(sa, 1e-5));
        vt::checkClose("anglerad", L.anglerad(U, X), ea, 0, tol);
        vt::checkClose("angledeg", L.angledeg(U, X), ea * 180 / M_PI, 0, tol * 60);
    }
    // conversions
    V3 cu = fromR3(R3::Vector(L.cartesian(U)));
    V3 cp = fromR3(R3::Vector(L.cartesian(p1)));
    V3 fu = fromR3(R3::Vector(L.fractional(toR3(uc))));
    double ucx[3] = {uc[0], uc[1], uc[2]};
    const double* pc = ucx;
    V3 fp = fromR3(R3::Vector(L.fractional(pc)));
    double fb = 1 + fabs(u[0]) + fabs(u[1]) + fabs(u[2]);
    M3 Bi = inv(B);
    double cond = 0;
    for (auto& r : Bi)  for (double x : r)  cond = max(cond, fabs(x) * Bn);
    for (int i = 0; i < 3; ++i)
    {
        vt::checkClose("cartesian", cu[i], uc[i], 0, rt * ub);
        vt::checkClose("cartesian of array", cp[i], uc[i], 0, rt * ub);
        vt::checkClose("fractional", fu[i], u[i], 0, rt * fb * cond);
        vt::checkClose("fractional of array", fp[i], u[i], 0, rt * fb * cond);
    }
    // wrapping
    for (int m = 0; m < 2; ++m)
    {
        V3 w = m ? fromR3(R3::Vector(L.ucvFractional(p1))) : fromR3(R3::Vector(L.ucvFractional(U)));
        V3 wc = m ? fromR3(R3::Vector(L.ucvCartesian(pc))) : fromR3(R3::Vector(L.ucvCartesian(toR3(uc))));
        V3 wf = mul(wc, Bi);
        for (int i = 0; i < 3; ++i)
        {
            VT_CHECK(w[i] >= 0 && w[i] < 1, "wrapped coordinate " << w[i]);
            double sh = w[i] - u[i];
            vt::checkClose("lattice shift", sh, floor(sh + 0.5), 0, 2e-8 + 1e-13 * fb);
            double s2 = wf[i] - u[i];
            vt::checkClose("Cartesian lattice shift", s2, floor(s2 + 0.5), 0, 2e-8 + rt * fb * cond);
            VT_CHECK(wf[i] > -1e-9 * cond * fb && wf[i] < 1 - 1e-9,
                    "wrapped Cartesian vector has fractional coordinate " << wf[i]);
        }
    }
}

VT_PROP(tensors, "anisotropic tensor in a skewed lattice", 240000, 4000000)
{
    bool rotated;
    M3 B = genBase(c, &rotated);
    Lattice L(toR3(B[0]), toR3(B[1]), toR3(B[2]));
    M3 U;
    for (int i = 0; i < 3; ++i) for (int j = 0; j <= i; ++j)
        U[i][j] = U[j][i] = (i == j) ? c.real(0.1, 2) : c.sreal(0.5);
    c.note() << "B=" << ref::str(B) << " U=" << ref::str(U);
    if (fabs(B[0][1]) + fabs(B[0][2]) + fabs(B[1][2]) > 1e-3)  c.nontrivial();
    // crystallographic U is relative to unit reciprocal vectors
    M3 Bi = inv(B);
    M3 N;
    for (int i = 0; i < 3; ++i)
        N[i] = norm(v3(Bi[0][i], Bi[1][i], Bi[2][i])) * B[i];
    M3 E = mul(trans(N), mul(U, N));
    M3 C = fromR3(R3::Matrix(L.cartesianMatrix(toR3(U))));
    M3 F = fromR3(R3::Matrix(L.fractionalMatrix(toR3(E))));
    double mx = 0;
    for (auto& r : E)  for (double x : r)  mx = max(mx, fabs(x));
    M3 Ni = inv(N);
    double cond = 0;
    for (auto& r : Ni)  for (double x : r)  cond = max(cond, fabs(x));
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
    {
        vt::checkClose("cartesianMatrix", C[i][j], E[i][j], 0, 1e-9 * mx);
        vt::checkClose("fractionalMatrix", F[i][j], U[i][j], 0, 1e-8 * mx * (1 + cond * cond));
    }
}

VT_PROP(equality, "two lattices whose parameters or orientation differ", 160000, 3200000)
{
    bool r0;
    M3 B = genBase(c, &r0);
    Lattice L(toR3(B[0]), toR3(B[1]), toR3(B[2]));
    Lattice L1 = L;
    VT_CHECK(L == L1 && !(L != L1), "copy is equal");
    Lattice L2(toR3(B[0]), toR3(B[1]), toR3(B[2]));
    VT_CHECK(L == L2 && !(L != L2), "same base is equal");
    M3 X = B;
    if (c.flag())
    {
        X[c.below(3)][c.below(3)] += c.oneof({1e-3, 1e-6, -1e-6});
        c.label("changed-element");
    }
    else
    {
        X = mul(B, rotation(genUnitVector(c), c.oneof({0.5, 1e-3, 1.0})));
        c.label("rotated");
    }
    if (X == B || det(X) < 1e-3)  c.discard();
    c.nontrivial();
    c.note() << "B=" << ref::str(B) << " X=" << ref::str(X);
    L1.setLatBase(toR3(X[0]), toR3(X[1]), toR3(X[2]));
    VT_CHECK(L != L1 && !(L == L1), "different lattices compare equal");
    L1.setLatBase(toR3(B[0]), toR3(B[1]), toR3(B[2]));
    VT_CHECK(L == L1, "restored lattice");
    double p[6];
    genLatPar(c, p, latOpts());
    Lattice A(p[0], p[1], p[2], p[3], p[4], p[5]), A1;
    A1.setLatPar(p[0], p[1], p[2], p[3], p[4], p[5]);
    VT_CHECK(A == A1, "same parameters");
    int i = c.below(6);
    double q[6];
    copy(p, p + 6, q);
    q[i] += c.oneof({1e-3, 1e-5});
    A1.setLatPar(q[0], q[1], q[2], q[3], q[4], q[5]);
    VT_CHECK(A != A1, "changed lattice parameter " << i);
}
