#include "common.hpp"

using namespace std;

namespace ref {

V3 operator+(const V3& a, const V3& b) { return v3(a[0]+b[0], a[1]+b[1], a[2]+b[2]); }
V3 operator-(const V3& a, const V3& b) { return v3(a[0]-b[0], a[1]-b[1], a[2]-b[2]); }
V3 operator*(double s, const V3& a) { return v3(s*a[0], s*a[1], s*a[2]); }
double dot(const V3& a, const V3& b) { return a[0]*b[0] + a[1]*b[1] + a[2]*b[2]; }
double norm(const V3& a) { return sqrt(dot(a, a)); }

V3 cross(const V3& a, const V3& b)
{
    return v3(a[1]*b[2] - a[2]*b[1], a[2]*b[0] - a[0]*b[2], a[0]*b[1] - a[1]*b[0]);
}

M3 mul(const M3& A, const M3& B)
{
    M3 C;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
    {
        C[i][j] = 0;
        for (int k = 0; k < 3; ++k)  C[i][j] += A[i][k] * B[k][j];
    }
    return C;
}

V3 mul(const M3& A, const V3& v)
{
    return v3(dot(A[0], v), dot(A[1], v), dot(A[2], v));
}

V3 mul(const V3& v, const M3& A) { return mul(trans(A), v); }

M3 trans(const M3& A)
{
    M3 B;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)  B[i][j] = A[j][i];
    return B;
}

double det(const M3& A) { return dot(A[0], cross(A[1], A[2])); }

M3 inv(const M3& A)
{
    double d = det(A);
    M3 B;
    V3 c0 = cross(A[1], A[2]), c1 = cross(A[2], A[0]), c2 = cross(A[0], A[1]);
    for (int i = 0; i < 3; ++i)
    {
        B[i][0] = c0[i] / d;
        B[i][1] = c1[i] / d;
        B[i][2] = c2[i] / d;
    }
    return B;
}

M3 diag(double u)
{
    M3 A;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)  A[i][j] = (i == j) ? u : 0.0;
    return A;
}

V3 fromR3(const R3::Vector& v) { return v3(v[0], v[1], v[2]); }

M3 fromR3(const R3::Matrix& M)
{
    M3 A;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)  A[i][j] = M(i, j);
    return A;
}

R3::Vector toR3(const V3& v) { return R3::Vector(v[0], v[1], v[2]); }

R3::Matrix toR3(const M3& A)
{
    return R3::Matrix(A[0][0], A[0][1], A[0][2], A[1][0], A[1][1], A[1][2],
            A[2][0], A[2][1], A[2][2]);
}

string str(const V3& v)
{
    ostringstream o;
    o << setprecision(10) << '(' << v[0] << ' ' << v[1] << ' ' << v[2] << ')';
    return o.str();
}

string str(const M3& A) { return str(A[0]) + str(A[1]) + str(A[2]); }

M3 rotation(const V3& axis, double rad)
{
    V3 n = (1.0 / norm(axis)) * axis;
    double c = cos(rad), s = sin(rad);
    M3 R;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
        R[i][j] = (1 - c) * n[i] * n[j] + (i == j ? c : 0.0);
    R[0][1] -= s * n[2]; R[1][0] += s * n[2];
    R[0][2] += s * n[1]; R[2][0] -= s * n[1];
    R[1][2] -= s * n[0]; R[2][1] += s * n[0];
    return R;
}

static double cosdeg(double x)
{
    if (x == 90)  return 0;
    if (x == 60)  return 0.5;
    if (x == 120)  return -0.5;
    return cos(x * M_PI / 180);
}

M3 baseFromPar(const double* p)
{
    // c along z, b in the yz plane
    double a = p[0], b = p[1], c = p[2];
    double ca = cosdeg(p[3]), cb = cosdeg(p[4]), cg = cosdeg(p[5]);
    double sa = sqrt(1 - ca * ca);
    M3 B;
    B[2] = v3(0, 0, c);
    B[1] = v3(0, b * sa, b * ca);
    double az = a * cb;
    double ay = a * (cg - ca * cb) / sa;
    double ax2 = a * a - ay * ay - az * az;
    B[0] = v3(sqrt(ax2), ay, az);
    return B;
}

M3 Model::base() const { return baseFromPar(par); }

string Model::str() const
{
    ostringstream o;
    o << setprecision(10);
    const char* kn[] = {"molecule", "periodic", "crystal"};
    o << kn[kind];
    if (kind != MOLECULE)
    {
        o << " lat(";
        for (int i = 0; i < 6; ++i)  o << (i ? " " : "") << par[i];
        o << ")";
    }
    if (kind == CRYSTAL)  o << " sg " << sg << " nops=" << ops.size();
    o << " {";
    for (const Site& s : sites)
    {
        o << s.type << ref::str(s.r);
        if (s.occ != 1)  o << " occ=" << s.occ;
        if (s.aniso)  o << " U=" << ref::str(s.U);
        else if (s.U[0][0])  o << " u=" << s.U[0][0];
        o << "; ";
    }
    o << "}";
    return o.str();
}

static V3 wrap(const V3& f)
{
    V3 r;
    for (int i = 0; i < 3; ++i)
    {
        r[i] = f[i] - floor(f[i]);
        if (r[i] >= 1 - 1e-9)  r[i] = 0;
    }
    return r;
}

vector<ExpSite> expandSite(const Model& m, int idx, double eps)
{
    const Site& s = m.sites[idx];
    vector<ExpSite> rv;
    if (m.kind == MOLECULE)
    {
        ExpSite e = {idx, s.r, s.U};
        rv.push_back(e);
        return rv;
    }
    M3 B = m.base();
    M3 Bi = inv(B);
    V3 f0 = mul(s.r, Bi);
    vector<Op> ops = m.ops;
    if (m.kind == PERIODIC || ops.empty())
    {
        Op id = {diag(1), v3(0, 0, 0)};
        ops.assign(1, id);
    }
    vector<V3> fr;
    vector<V3> dsum;
    vector<int> dcnt;
    for (const Op& op : ops)
    {
        V3 f = mul(op.R, f0) + op.t;
        bool dup = false;
        for (size_t i = 0; i < fr.size(); ++i)
        {
            V3 d = f - fr[i];
            for (int k = 0; k < 3; ++k)  d[k] -= floor(d[k] + 0.5);
            if (norm(mul(d, B)) <= eps)
            {
                dup = true;
                dsum[i] = dsum[i] + d;
                dcnt[i]++;
                break;
            }
        }
        if (dup)  continue;
        fr.push_back(f);
        dsum.push_back(v3(0, 0, 0));
        dcnt.push_back(1);
        // Cartesian rotation: r_cart = B^T f
        M3 Rc = mul(mul(trans(B), op.R), trans(Bi));
        ExpSite e;
        e.parent = idx;
        e.r = mul(wrap(f), B);
        e.U = mul(mul(Rc, s.U), trans(Rc));
        rv.push_back(e);
    }
    // merged images have their mean position
    for (size_t i = 0; i < fr.size(); ++i)
        rv[i].r = mul(wrap(fr[i] + (1.0 / dcnt[i]) * dsum[i]), B);
    return rv;
}

vector<vector<ExpSite> > expandAll(const Model& m)
{
    vector<vector<ExpSite> > rv;
    for (size_t i = 0; i < m.sites.size(); ++i)  rv.push_back(expandSite(m, i));
    return rv;
}

Model expandP1(const Model& m, vector<int>* parent)
{
    Model rv = m;
    if (parent)  parent->clear();
    rv.sites.clear();
    rv.ops.clear();
    rv.sg = "";
    if (m.kind != MOLECULE)  rv.kind = PERIODIC;
    for (size_t i = 0; i < m.sites.size(); ++i)
    {
        for (const ExpSite& e : expandSite(m, i))
        {
            Site s = m.sites[i];
            s.r = e.r;
            if (s.aniso)  s.U = e.U;
            rv.sites.push_back(s);
            if (parent)  parent->push_back(i);
        }
    }
    return rv;
}

double msd(const Site& s, const M3& U, const V3& dir)
{
    if (!s.aniso)  return s.U[0][0];
    V3 n = (1 / norm(dir)) * dir;
    return dot(n, mul(U, n));
}

static void bondsFrom(const Model& m, const vector<vector<ExpSite> >& ex,
        int i0, double lo, double hi, vector<Bond>& rv)
{
    const double zero = 1e-7;
    const ExpSite& e0 = ex[i0][0];
    int N[3] = {0, 0, 0};
    M3 B = diag(1);
    if (m.kind != MOLECULE)
    {
        B = m.base();
        M3 Bi = inv(B);
        for (int k = 0; k < 3; ++k)
        {
            V3 rk = v3(Bi[0][k], Bi[1][k], Bi[2][k]);
            N[k] = int(floor(hi * norm(rk))) + 2;
        }
    }
    for (size_t i1 = 0; i1 < ex.size(); ++i1)
    {
        for (size_t k1 = 0; k1 < ex[i1].size(); ++k1)
        {
            const ExpSite& e1 = ex[i1][k1];
            V3 d0 = e1.r - e0.r;
            for (int a = -N[0]; a <= N[0]; ++a)
            for (int b = -N[1]; b <= N[1]; ++b)
            for (int c = -N[2]; c <= N[2]; ++c)
            {
                V3 d = d0;
                if (m.kind != MOLECULE)
                    for (int k = 0; k < 3; ++k)
                        d[k] += a * B[0][k] + b * B[1][k] + c * B[2][k];
                double dd = norm(d);
                if (dd < zero || dd < lo || dd > hi)  continue;
                Bond bd;
                bd.i0 = i0;
                bd.i1 = i1;
                bd.d = dd;
                bd.r01 = d;
                bd.msd = msd(m.sites[i0], e0.U, d) + msd(m.sites[i1], e1.U, d);
                bd.k1 = k1;
                rv.push_back(bd);
            }
        }
    }
}

void compareBonds(const string& what, vector<Bond> got, vector<Bond> exp,
        bool withmsd, double tol)
{
    auto less = [](const Bond& a, const Bond& b)
    {
        if (a.i0 != b.i0)  return a.i0 < b.i0;
        if (a.i1 != b.i1)  return a.i1 < b.i1;
        return a.d < b.d;
    };
    sort(got.begin(), got.end(), less);
    sort(exp.begin(), exp.end(), less);
    vector<char> used(got.size(), 0);
    for (const Bond& e : exp)
    {
        Bond lo = e;
        lo.d -= tol;
        auto gi = lower_bound(got.begin(), got.end(), lo, less);
        bool found = false;
        for (; gi != got.end() && gi->i0 == e.i0 && gi->i1 == e.i1 &&
                gi->d <= e.d + tol; ++gi)
        {
            if (used[gi - got.begin()])  continue;
            if (norm(gi->r01 - e.r01) > tol)  continue;
            if (withmsd && fabs(gi->msd - e.msd) > 1e-7)  continue;
            used[gi - got.begin()] = 1;
            found = true;
            break;
        }
        VT_CHECK(found, what << ": missing bond " << e.i0 << "-" << e.i1 <<
                " d=" << e.d << " r01=" << str(e.r01) <<
                (withmsd ? " msd=" + vt::str(e.msd) : string()) << ", " <<
                got.size() << " bonds for " << exp.size() << " expected");
    }
    for (size_t i = 0; i < got.size(); ++i)
    {
        const Bond& g = got[i];
        VT_CHECK(used[i], what << ": extra bond " << g.i0 << "-" << g.i1 <<
                " d=" << g.d << " r01=" << str(g.r01) << ", " <<
                got.size() << " bonds for " << exp.size() << " expected");
    }
}

vector<Bond> bonds(const Model& m, int i0, double lo, double hi)
{
    vector<Bond> rv;
    bondsFrom(m, expandAll(m), i0, lo, hi, rv);
    return rv;
}

vector<vector<Bond> > allBonds(const Model& m, double lo, double hi)
{
    vector<vector<ExpSite> > ex = expandAll(m);
    vector<vector<Bond> > rv(m.sites.size());
    for (size_t i = 0; i < m.sites.size(); ++i)  bondsFrom(m, ex, i, lo, hi, rv[i]);
    return rv;
}

bool hasAmbiguousSelf(const Model& m, double rmax)
{
    vector<vector<ExpSite> > ex = expandAll(m);
    vector<Bond> bs;
    for (size_t i = 0; i < m.sites.size(); ++i)  bondsFrom(m, ex, i, 0, 1e-3, bs);
    for (const Bond& b : bs)
    {
        if (b.d > 1e-12 && b.d < 1e-5)  return true;
    }
    // zero distances are below the 1e-7 cut off of bondsFrom; check them
    for (size_t i = 0; i < ex.size(); ++i)
        for (size_t j = 0; j < ex.size(); ++j)
            for (const ExpSite& e : ex[j])
            {
                V3 d = e.r - ex[i][0].r;
                if (m.kind != MOLECULE)
                {
                    M3 B = m.base();
                    V3 f = mul(d, inv(B));
                    for (int k = 0; k < 3; ++k)  f[k] -= floor(f[k] + 0.5);
                    d = mul(f, B);
                }
                double dd = norm(d);
                if (dd > 1e-10 && dd < 1e-5)  return true;
            }
    return false;
}

double clearLimit(const Model& m, double r, double margin)
{
    vector<double> ds;
    for (auto& v : allBonds(m, 0, r + 1.0))
        for (const Bond& b : v)  ds.push_back(b.d);
    sort(ds.begin(), ds.end());
    double x = r;
    for (int it = 0; it < 1000; ++it)
    {
        auto i = lower_bound(ds.begin(), ds.end(), x - margin);
        if (i == ds.end() || *i > x + margin)  return x;
        x += 1.618 * margin;
    }
    throw vt::Discard();
}

vector<int> multiplicities(const Model& m)
{
    vector<int> rv;
    for (auto& e : expandAll(m))  rv.push_back(e.size());
    return rv;
}

double totalOccupancy(const Model& m)
{
    double rv = 0;
    vector<int> mu = multiplicities(m);
    for (size_t i = 0; i < mu.size(); ++i)  rv += mu[i] * m.sites[i].occ;
    return rv;
}

double volume(const Model& m) { return fabs(det(m.base())); }

int cellAtoms(const Model& m)
{
    int rv = 0;
    for (int k : multiplicities(m))  rv += k;
    return rv;
}

Atom toAtom(const Site& s)
{
    Atom a;
    a.atomtype = s.type;
    a.xyz_cartn = toR3(s.r);
    a.occupancy = s.occ;
    a.anisotropy = s.aniso;
    a.uij_cartn = toR3(s.U);
    return a;
}

StructureAdapterPtr build(const Model& m)
{
    AtomicStructureAdapterPtr rv;
    if (m.kind == MOLECULE)  rv = boost::make_shared<AtomicStructureAdapter>();
    else
    {
        PeriodicStructureAdapterPtr p;
        if (m.kind == CRYSTAL)
        {
            CrystalStructureAdapterPtr cr = boost::make_shared<CrystalStructureAdapter>();
            for (const Op& op : m.ops)  cr->addSymOp(toR3(op.R), toR3(op.t));
            p = cr;
        }
        else  p = boost::make_shared<PeriodicStructureAdapter>();
        p->setLatPar(m.par[0], m.par[1], m.par[2], m.par[3], m.par[4], m.par[5]);
        rv = p;
    }
    for (const Site& s : m.sites)  rv->append(toAtom(s));
    return rv;
}

}   // namespace ref

using namespace ref;

// Space groups ---------------------------------------------------------------

namespace {

// operations as integer rotation and translation in 1/24
struct IOp
{
    int R[9];
    int t[3];
    bool operator<(const IOp& o) const
    {
        return make_pair(vector<int>(R, R + 9), vector<int>(t, t + 3)) <
            make_pair(vector<int>(o.R, o.R + 9), vector<int>(o.t, o.t + 3));
    }
};

IOp compose(const IOp& a, const IOp& b)
{
    IOp c;
    for (int i = 0; i < 3; ++i)
    {
        for (int j = 0; j < 3; ++j)
        {
            c.R[3*i+j] = 0;
            for (int k = 0; k < 3; ++k)  c.R[3*i+j] += a.R[3*i+k] * b.R[3*k+j];
        }
        c.t[i] = a.t[i];
        for (int k = 0; k < 3; ++k)  c.t[i] += a.R[3*i+k] * b.t[k];
        c.t[i] = ((c.t[i] % 24) + 24) % 24;
    }
    return c;
}

SpaceGroup makeGroup(const char* name, int system, vector<IOp> gens)
{
    IOp id = {{1,0,0, 0,1,0, 0,0,1}, {0,0,0}};
    vector<IOp> ops(1, id);
    set<IOp> seen;
    seen.insert(id);
    for (size_t i = 0; i < ops.size(); ++i)
    {
        for (const IOp& g : gens)
        {
            IOp x = compose(g, ops[i]);
            if (seen.insert(x).second)  ops.push_back(x);
        }
        if (ops.size() > 200)  abort();
    }
    SpaceGroup sg;
    sg.name = name;
    sg.system = system;
    for (const IOp& o : ops)
    {
        Op p;
        for (int i = 0; i < 3; ++i)
        {
            for (int j = 0; j < 3; ++j)  p.R[i][j] = o.R[3*i+j];
            p.t[i] = o.t[i] / 24.0;
        }
        sg.ops.push_back(p);
    }
    return sg;
}

}   // namespace

enum { TRICLINIC, MONOCLINIC, ORTHO, TETRA, HEXA, CUBIC, ANYSYS };

const vector<SpaceGroup>& spaceGroups()
{
    static vector<SpaceGroup> rv;
    if (!rv.empty())  return rv;
    const IOp inv = {{-1,0,0, 0,-1,0, 0,0,-1}, {0,0,0}};
    const IOp Cc = {{1,0,0, 0,1,0, 0,0,1}, {12,12,0}};
    const IOp Ic = {{1,0,0, 0,1,0, 0,0,1}, {12,12,12}};
    const IOp F1 = {{1,0,0, 0,1,0, 0,0,1}, {0,12,12}};
    const IOp F2 = {{1,0,0, 0,1,0, 0,0,1}, {12,0,12}};
    const IOp m2y = {{-1,0,0, 0,1,0, 0,0,-1}, {0,0,0}};
    const IOp s2y = {{-1,0,0, 0,1,0, 0,0,-1}, {0,12,12}};
    const IOp z2 = {{-1,0,0, 0,-1,0, 0,0,1}, {0,0,0}};
    const IOp z21 = {{-1,0,0, 0,-1,0, 0,0,1}, {12,0,12}};
    const IOp y21 = {{-1,0,0, 0,1,0, 0,0,-1}, {0,12,12}};
    const IOp z4 = {{0,-1,0, 1,0,0, 0,0,1}, {0,0,0}};
    const IOp z42n = {{0,-1,0, 1,0,0, 0,0,1}, {12,12,12}};
    const IOp y2n = {{-1,0,0, 0,1,0, 0,0,-1}, {12,12,12}};
    const IOp z3 = {{0,-1,0, 1,-1,0, 0,0,1}, {0,0,0}};
    const IOp z63 = {{1,-1,0, 1,0,0, 0,0,1}, {0,0,12}};
    const IOp xy2 = {{0,1,0, 1,0,0, 0,0,-1}, {0,0,0}};
    const IOp Rc = {{1,0,0, 0,1,0, 0,0,1}, {16,8,8}};
    const IOp c3 = {{0,0,1, 1,0,0, 0,1,0}, {0,0,0}};
    const IOp z41d = {{0,-1,0, 1,0,0, 0,0,1}, {6,18,6}};
    rv.push_back(makeGroup("P1", TRICLINIC, {}));
    rv.push_back(makeGroup("P-1", TRICLINIC, {inv}));
    rv.push_back(makeGroup("P2", MONOCLINIC, {m2y}));
    rv.push_back(makeGroup("P2/m", MONOCLINIC, {m2y, inv}));
    rv.push_back(makeGroup("P21/c", MONOCLINIC, {s2y, inv}));
    rv.push_back(makeGroup("C2/m", MONOCLINIC, {m2y, inv, Cc}));
    rv.push_back(makeGroup("P212121", ORTHO, {z21, y21}));
    rv.push_back(makeGroup("Pmmm", ORTHO, {z2, m2y, inv}));
    rv.push_back(makeGroup("Immm", ORTHO, {z2, m2y, inv, Ic}));
    rv.push_back(makeGroup("P4", TETRA, {z4}));
    rv.push_back(makeGroup("P4/mmm", TETRA, {z4, m2y, inv}));
    rv.push_back(makeGroup("P42/mnm", TETRA, {z42n, y2n, inv}));
    rv.push_back(makeGroup("I41/a", TETRA, {z41d, inv, Ic}));
    rv.push_back(makeGroup("P3", HEXA, {z3}));
    rv.push_back(makeGroup("P63/m", HEXA, {z63, inv}));
    rv.push_back(makeGroup("R-3m", HEXA, {z3, xy2, inv, Rc}));
    rv.push_back(makeGroup("P63/mmc", HEXA, {z63, xy2, inv}));
    rv.push_back(makeGroup("P23", CUBIC, {c3, z2}));
    rv.push_back(makeGroup("Pm-3m", CUBIC, {c3, z4, inv}));
    rv.push_back(makeGroup("Fm-3m", CUBIC, {c3, z4, inv, F1, F2}));
    return rv;
}

// Generators -------------------------------------------------------------------

vector<string> typePool(const GenOpts& o)
{
    if (!o.types.empty())  return o.types;
    vector<string> rv = {"C", "O", "Ni", "Na", "Cl", "Ti"};
    if (o.ions)
    {
        const char* x[] = {"O2-", "Na1+", "Cl1-", "Ti4+"};
        rv.insert(rv.end(), x, x + 4);
    }
    return rv;
}


static double genLen(Case& c, const GenOpts& o)
{
    return o.cellmin + c.real(0, o.cellmax - o.cellmin);
}


void genLatPar(Case& c, double* p, const GenOpts& o, int system)
{
    if (system < 0)
    {
        int order[] = {CUBIC, ORTHO, TRICLINIC, TRICLINIC, MONOCLINIC, HEXA, TETRA};
        system = order[c.below(7)];
    }
    p[0] = genLen(c, o);
    p[1] = p[2] = p[0];
    p[3] = p[4] = p[5] = 90;
    switch (system)
    {
        case CUBIC: break;
        case TETRA: p[2] = genLen(c, o); break;
        case HEXA: p[2] = genLen(c, o); p[5] = 120; break;
        case ORTHO: p[1] = genLen(c, o); p[2] = genLen(c, o); break;
        case MONOCLINIC:
            p[1] = genLen(c, o);
            p[2] = genLen(c, o);
            p[4] = 90 + c.sreal(o.skewed ? 45 : 15);
            break;
        default:
            p[1] = genLen(c, o);
            p[2] = genLen(c, o);
            for (int k = 0; k < 100; ++k)
            {
                double w = o.skewed ? 50 : 15;
                p[3] = 90 + c.sreal(w);
                p[4] = 90 + c.sreal(w);
                p[5] = 90 + c.sreal(w);
                double ca = cos(p[3]*M_PI/180), cb = cos(p[4]*M_PI/180), cg = cos(p[5]*M_PI/180);
                double v2 = 1 + 2*ca*cb*cg - ca*ca - cb*cb - cg*cg;
                if (v2 > 0.04)  return;
            }
            throw vt::Discard();
    }
}


V3 genUnitVector(Case& c)
{
    for (int k = 0; k < 20; ++k)
    {
        V3 v = v3(c.sreal(1), c.sreal(1), c.sreal(1));
        double n = norm(v);
        if (n > 0.05 && n <= 1.8)  return (1 / n) * v;
    }
    return v3(0, 0, 1);
}


M3 genRotation(Case& c)
{
    V3 ax = genUnitVector(c);
    return rotation(ax, c.sreal(M_PI));
}


M3 genUiso(Case& c, const GenOpts& o)
{
    if (o.zeroU && c.chance(1, 4))  return diag(0);
    return diag(c.oneof({0.005, 0.003, 0.01, 0.02}) * c.oneof({1.0, 1.0, 0.3, 1.5}));
}


M3 genUaniso(Case& c, const GenOpts& o)
{
    // positive definite with moderate anisotropy
    double u[3];
    for (int i = 0; i < 3; ++i)  u[i] = 0.002 + c.real(0, o.maxU - 0.002);
    M3 D = diag(0);
    for (int i = 0; i < 3; ++i)  D[i][i] = u[i];
    if (c.flag())
    {
        M3 R = genRotation(c);
        D = mul(mul(R, D), trans(R));
        for (int i = 0; i < 3; ++i) for (int j = 0; j < i; ++j)
            D[i][j] = D[j][i];
    }
    return D;
}


Site genSite(Case& c, const GenOpts& o)
{
    Site s;
    vector<string> tp = typePool(o);
    s.type = c.pick(tp);
    if (o.partialocc && c.chance(1, 3))  s.occ = c.oneof({0.5, 0.25, 0.8, 0.1, 1.0});
    s.aniso = c.chance(1, 4);
    s.U = s.aniso ? genUaniso(c, o) : genUiso(c, o);
    return s;
}


static double genFrac(Case& c)
{
    switch (c.below(6))
    {
        case 0: return c.below(4) / 4.0;
        case 1: return c.below(12) / 12.0;
        case 2: return c.below(8) / 8.0;
        case 3: return c.below(100) / 100.0;
        default: return c.real(0, 1);
    }
}


static V3 genFracPos(Case& c, const GenOpts& o, bool symmetric)
{
    V3 f = v3(genFrac(c), genFrac(c), genFrac(c));
    if (symmetric)
    {
        // special positions
        switch (c.below(6))
        {
            case 0: break;
            case 1: f = v3(f[0], f[0], f[0]); break;
            case 2: f = v3(f[0], f[0], 0); break;
            case 3: f = v3(f[0], f[0], f[2]); break;
            case 4: f = v3(f[0], 0, 0); break;
            case 5: f = v3(c.below(3) / 3.0, c.below(3) / 3.0, c.below(4) / 4.0); break;
        }
    }
    if (c.chance(1, 8))
    {
        // next to the cell boundary or to a special position
        int k = c.below(3);
        f[k] += c.oneof({1e-6, -1e-6, 2e-6, -2e-6});
    }
    if (o.outside && c.chance(1, 4))
    {
        for (int k = 0; k < 3; ++k)  f[k] += c.range(0, 4) - 2;
    }
    return f;
}


// average displacement tensor over site symmetry
static void symmetrizeU(Model& m, int idx)
{
    Site& s = m.sites[idx];
    if (!s.aniso || m.kind != CRYSTAL || m.ops.empty())  return;
    M3 B = m.base();
    M3 Bi = inv(B);
    V3 f0 = mul(s.r, Bi);
    M3 sum = diag(0);
    int n = 0;
    for (const Op& op : m.ops)
    {
        V3 d = mul(op.R, f0) + op.t - f0;
        for (int k = 0; k < 3; ++k)  d[k] -= floor(d[k] + 0.5);
        if (norm(mul(d, B)) > 5e-5)  continue;
        M3 Rc = mul(mul(trans(B), op.R), trans(Bi));
        M3 U = mul(mul(Rc, s.U), trans(Rc));
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)  sum[i][j] += U[i][j];
        ++n;
    }
    if (n < 1)  return;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
        s.U[i][j] = 0.5 * (sum[i][j] + sum[j][i]) / n;
}


// images must be either well separated or identical within tolerance
static bool symmetryClear(const Model& m)
{
    if (m.kind != CRYSTAL || m.ops.empty())  return true;
    for (size_t i = 0; i < m.sites.size(); ++i)
    {
        size_t n0 = expandSite(m, i, 5e-5).size();
        if (n0 != expandSite(m, i, 1.5e-5).size())  return false;
        if (n0 != expandSite(m, i, 5e-3).size())  return false;
    }
    return true;
}


bool validModel(const Model& m, const GenOpts& o)
{
    if (!symmetryClear(m))  return false;
    if (m.kind != MOLECULE && cellAtoms(m) > o.maxcell)  return false;
    if (m.kind != MOLECULE)
    {
        const double* p = m.par;
        double ca = cos(p[3]*M_PI/180), cb = cos(p[4]*M_PI/180), cg = cos(p[5]*M_PI/180);
        if (1 + 2*ca*cb*cg - ca*ca - cb*cb - cg*cg < 0.03)  return false;
    }
    if (hasAmbiguousSelf(m))  return false;
    double md = o.allowcoincident ? o.mindist : max(o.mindist, 1e-3);
    if (md > 0)
    {
        vector<vector<ExpSite> > ex = expandAll(m);
        vector<ExpSite> all;
        for (auto& v : ex)  all.insert(all.end(), v.begin(), v.end());
        M3 B = m.base(), Bi = inv(B);
        for (size_t i = 0; i < all.size(); ++i)
            for (size_t j = 0; j < i; ++j)
            {
                V3 d = all[i].r - all[j].r;
                if (m.kind != MOLECULE)
                {
                    V3 f = mul(d, Bi);
                    for (int k = 0; k < 3; ++k)  f[k] -= floor(f[k] + 0.5);
                    double best = 1e9;
                    for (int a = -1; a <= 1; ++a) for (int b = -1; b <= 1; ++b)
                    for (int cc = -1; cc <= 1; ++cc)
                        best = min(best, norm(mul(f + v3(a, b, cc), B)));
                    if (best < md)  return false;
                }
                else if (norm(d) < md)  return false;
            }
    }
    return true;
}


static V3 genPos(Case& c, const Model& m, const GenOpts& o)
{
    if (m.kind == MOLECULE)
    {
        return v3(c.sreal(o.molsize), c.sreal(o.molsize), c.sreal(o.molsize));
    }
    V3 f = genFracPos(c, o, m.kind == CRYSTAL);
    return mul(f, m.base());
}


Model genModel(Case& c, const GenOpts& o)
{
    Model m;
    vector<Kind> kinds;
    if (o.molecule)  kinds.push_back(MOLECULE);
    if (o.periodic)  kinds.push_back(PERIODIC);
    if (o.crystal)  kinds.push_back(CRYSTAL);
    m.kind = c.pick(kinds);
    int n = c.range(o.minsites, o.maxsites);
    if (m.kind != CRYSTAL && o.largeden && c.chance(1, o.largeden))
    {
        int nmax = (m.kind == MOLECULE) ? o.largesites : min(o.largesites, o.maxcell);
        if (nmax > o.maxsites)
        {
            n = c.range(o.maxsites + 1, nmax);
            c.label("large structure");
        }
    }
    if (m.kind == PERIODIC)  genLatPar(c, m.par, o);
    if (m.kind == CRYSTAL)
    {
        if (c.chance(1, 10))
        {
            m.sg = "none";
            genLatPar(c, m.par, o);
        }
        else
        {
            const SpaceGroup& sg = c.pick(spaceGroups());
            m.sg = sg.name;
            m.ops = sg.ops;
            genLatPar(c, m.par, o, sg.system);
            if (c.flag())
            {
                // operations in any order and with any lattice shift
                vector<int> p = c.permutation(sg.ops.size());
                for (size_t i = 0; i < p.size(); ++i)  m.ops[i] = sg.ops[p[i]];
                if (c.flag())
                    for (Op& op : m.ops)
                        for (int k = 0; k < 3; ++k)
                            if (c.chance(1, 6))  op.t[k] += c.range(0, 2) - 1;
                m.sg += "(shuffled)";
            }
        }
    }
    if (m.kind == CRYSTAL && m.ops.size() > 8)  n = min(n, max(o.minsites, 3));
    for (int i = 0; i < n; ++i)
    {
        Site s = genSite(c, o);
        bool placed = false;
        for (int k = 0; k < 12; ++k)
        {
            s.r = genPos(c, m, o);
            m.sites.push_back(s);
            symmetrizeU(m, m.sites.size() - 1);
            if (validModel(m, o))  { placed = true; break; }
            m.sites.pop_back();
        }
        if (!placed && int(m.sites.size()) < o.minsites)  throw vt::Discard();
    }
    return m;
}


string mutateModel(Case& c, Model& m, const GenOpts& o)
{
    for (int k = 0; k < 10; ++k)
    {
        Model m1 = m;
        ostringstream w;
        int n = m.sites.size();
        int op = c.below(12);
        int i = n ? c.below(n) : 0;
        switch (op)
        {
            case 0:
                if (!n)  continue;
                m1.sites[i].r = genPos(c, m1, o);
                w << "move " << i;
                break;
            case 1:
                if (n <= o.minsites)  continue;
                m1.sites.erase(m1.sites.begin() + i);
                w << "erase " << i;
                break;
            case 2:
            case 3:
                if (n >= o.maxsites + 2)  continue;
                {
                    Site s = genSite(c, o);
                    s.r = genPos(c, m1, o);
                    int at = (op == 2) ? n : i;
                    m1.sites.insert(m1.sites.begin() + at, s);
                    i = at;
                    w << "insert at " << at;
                }
                break;
            case 4:
                if (!n)  continue;
                {
                    vector<string> tp = typePool(o);
                    m1.sites[i].type = c.pick(tp);
                    w << "retype " << i << " " << m1.sites[i].type;
                }
                break;
            case 5:
                if (!n || !o.partialocc)  continue;
                m1.sites[i].occ = c.oneof({0.5, 0.25, 0.8, 0.1, 1.0});
                w << "occupancy " << i << " " << m1.sites[i].occ;
                break;
            case 6:
                if (!n)  continue;
                m1.sites[i].aniso = c.flag();
                m1.sites[i].U = m1.sites[i].aniso ? genUaniso(c, o) : genUiso(c, o);
                w << "displacement " << i;
                break;
            case 7:
                if (n < 2)  continue;
                {
                    vector<int> p = c.permutation(n);
                    for (int a = 0; a < n; ++a)  m1.sites[a] = m.sites[p[a]];
                    w << "permute " << vt::strv(p);
                }
                break;
            case 8:
                if (m1.kind == MOLECULE)  continue;
                {
                    double f = c.oneof({1.01, 0.99, 1.1, 1.001});
                    M3 B0 = m1.base();
                    m1.par[0] *= f; m1.par[1] *= f; m1.par[2] *= f;
                    if (c.flag())
                    {
                        // keep fractional coordinates
                        M3 B1 = m1.base();
                        for (Site& s : m1.sites)  s.r = mul(mul(s.r, inv(B0)), B1);
                    }
                    w << "scale lattice " << f;
                }
                break;
            case 9:
                if (m1.kind != CRYSTAL || m1.ops.empty())  continue;
                if (c.flag())  { m1.ops.resize(1); m1.sg = "P1"; m1.ops[0] = spaceGroups()[0].ops[0]; }
                else  { m1.ops.clear(); m1.sg = "none"; }
                w << "reduce symmetry to " << m1.sg;
                break;
            case 10:
                // change the kind keeping the atoms
                if (m1.kind != PERIODIC && o.periodic)  m1.kind = PERIODIC;
                else if (m1.kind == PERIODIC && o.crystal)  { m1.kind = CRYSTAL; m1.ops.clear(); m1.sg = "none"; }
                else if (o.molecule)  m1.kind = MOLECULE;
                else  continue;
                if (m.kind == MOLECULE)  genLatPar(c, m1.par, o);
                w << "change kind to " << m1.kind;
                break;
            case 11:
                if (n < 2)  continue;
                {
                    int j = c.below(n);
                    swap(m1.sites[i], m1.sites[j]);
                    w << "swap " << i << " " << j;
                }
                break;
        }
        for (size_t a = 0; a < m1.sites.size(); ++a)
        {
            // symmetrization must leave untouched sites bit-identical
            Model t = m1;
            symmetrizeU(t, a);
            if (m1.sites[a].aniso)
            {
                double dmax = 0;
                for (int p = 0; p < 3; ++p) for (int q = 0; q < 3; ++q)
                    dmax = max(dmax, fabs(t.sites[a].U[p][q] - m1.sites[a].U[p][q]));
                if (dmax > 1e-12)  m1.sites[a].U = t.sites[a].U;
            }
        }
        if (!validModel(m1, o))  continue;
        m = m1;
        return w.str();
    }
    return "none";
}
