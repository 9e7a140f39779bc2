// C04: bond generators enumerate every pair image exactly once
#include "common.hpp"

using namespace std;
using namespace ref;

static vector<Bond> collect(sr::BaseBondGenerator& g, const Model& m,
        const vector<vector<ExpSite> >& ex, const vector<int>& mult, size_t limit)
{
    vector<Bond> rv;
    M3 B = m.periodic() ? m.base() : diag(1);
    M3 Bi = inv(B);
    for (; !g.finished(); g.next())
    {
        Bond b;
        b.i0 = g.site0();
        b.i1 = g.site1();
        b.d = g.distance();
        b.r01 = fromR3(R3::Vector(g.r01()));
        b.msd = g.msd();
        V3 r0 = fromR3(R3::Vector(g.r0())), r1 = fromR3(R3::Vector(g.r1()));
        VT_CHECK(norm(r1 - r0 - b.r01) < 1e-9 * (1 + norm(r1) + norm(r0)), "r01 is r1 - r0");
        VT_CHECK(fabs(norm(b.r01) - b.d) < 1e-9 * (1 + b.d), "distance " << b.d << " of " << ref::str(b.r01));
        VT_CHECK(g.multiplicity() == mult[b.i0], "multiplicity " << g.multiplicity());
        // endpoints belong to their sites
        for (int e = 0; e < 2; ++e)
        {
            const vector<ExpSite>& xs = ex[e ? b.i1 : b.i0];
            const V3& r = e ? r1 : r0;
            M3 U = fromR3(R3::Matrix(e ? g.Ucartesian1() : g.Ucartesian0()));
            bool ok = false, okU = false;
            for (const ExpSite& x : xs)
            {
                V3 d = r - x.r;
                if (m.periodic())
                {
                    V3 f = mul(d, Bi);
                    for (double& q : f)  q -= floor(q + 0.5);
                    d = mul(f, B);
                }
                if (norm(d) > 1e-6)  continue;
                ok = true;
                double du = 0;
                for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
                    du = max(du, fabs(U[i][j] - x.U[i][j]));
                if (du < 1e-7)  okU = true;
            }
            VT_CHECK(ok, "endpoint " << e << " " << ref::str(r) << " is no image of its site");
            VT_CHECK(okU, "displacement tensor at endpoint " << e << " " << ref::str(U));
        }
        rv.push_back(b);
        VT_CHECK(rv.size() <= limit, "too many bonds");
    }
    return rv;
}

VT_PROP(enumeration, "at least 5 bonds found in one enumeration", 48000, 1200000)
{
    GenOpts o;
    o.minsites = 1;
    o.maxsites = 7;
    o.cellmin = 1.6;
    o.cellmax = c.oneof({5.0, 9.0, 14.0});
    o.molsize = 4;
    Model m = genModel(c, o);
    const int n = m.sites.size();
    if (!n)  c.discard();
    double rcap = 4.5;
    if (m.periodic())
    {
        double cnt = c.thorough ? 6000 : 1500;
        double per = cellAtoms(m) / volume(m);
        rcap = min(25.0, cbrt(cnt / per * 3 / 4 / M_PI));
    }
    else  rcap = 16;
    c.note() << m.str();
    c.label(m.kind == MOLECULE ? "molecule" : m.kind == PERIODIC ? "periodic" : "crystal");
    StructureAdapterPtr s = build(m);
    vector<vector<ExpSite> > ex = expandAll(m);
    vector<int> mult = multiplicities(m);
    vector<vector<Bond> > all = allBonds(m, 0, rcap + 1.5);
    vector<double> ds;
    size_t nall = 10;
    for (auto& v : all)
    {
        nall += v.size();
        for (auto& b : v)  ds.push_back(b.d);
    }
    sort(ds.begin(), ds.end());
    auto clear = [&](double x)
    {
        for (int k = 0; k < 500; ++k)
        {
            auto i = lower_bound(ds.begin(), ds.end(), x - 1e-5);
            if (i == ds.end() || *i > x + 1e-5)  return x;
            x += 1.37e-5;
        }
        throw vt::Discard();
    };
    sr::BaseBondGeneratorPtr g = s->createBondGenerator();
    // the generator keeps its own reference or the structure stays alive
    double rmin = 0, rmax = 0;
    vector<int> sel;
    for (int i = 0; i < n; ++i)  sel.push_back(i);
    int anchor = c.below(n);
    g->selectAnchorSite(anchor);
    VT_CHECK(g->getRmin() == 0, "default rmin");
    sr::SiteIndices keep;
    bool fresh = false;     // rewound after the last configuration
    bool big = false;
    int nops = c.range(2, 8);
    int nenum = 0;
    for (int k = 0; k < nops; ++k)
    {
        int op = k == 0 ? 3 : c.below(7);
        double rmin0 = rmin, rmax0 = rmax;
        if (op < 5 && k > 0 && c.chance(1, 2))
        {
            // in the middle of enumeration
            g->rewind();
            for (int q = c.below(5); q && !g->finished(); --q)  g->next();
        }
        switch (op)
        {
            case 0:
                anchor = c.below(n);
                g->selectAnchorSite(anchor);
                c.note() << "; anchor " << anchor;
                fresh = false;
                break;
            case 1:
            {
                int a = c.range(0, n), b = c.range(a, n);
                g->selectSiteRange(a, b);
                sel.clear();
                for (int i = a; i < b; ++i)  sel.push_back(i);
                c.note() << "; range " << a << ' ' << b;
                fresh = false;
                break;
            }
            case 2:
            {
                vector<int> p = c.permutation(n);
                p.resize(c.range(0, n));
                sel = p;
                sr::SiteIndices si(sel.begin(), sel.end());
                bool it = c.flag();
                if (it)
                {
                    keep = si;
                    g->selectSites(keep.begin(), keep.end());
                }
                else  g->selectSites(si);
                c.note() << "; select " << vt::strv(sel);
                fresh = false;
                c.label("selection");
                break;
            }
            case 3:
                rmax = c.chance(1, 15) ? c.oneof({0.0, -1.0}) : clear(c.real(0.2, rcap));
                g->setRmax(rmax);
                VT_CHECK(g->getRmax() == rmax, "rmax");
                c.note() << "; rmax " << rmax;
                fresh = false;
                break;
            case 4:
                rmin = c.chance(1, 4) ? c.oneof({0.0, -1.0}) : clear(c.real(0.01, rcap));
                g->setRmin(rmin);
                VT_CHECK(g->getRmin() == rmin, "rmin");
                c.note() << "; rmin " << rmin;
                fresh = false;
                break;
            default:
            {
                c.note() << "; enumerate";
                g->rewind();
                if (c.chance(1, 4))
                {
                    int q = c.range(0, 12);
                    for (; q && !g->finished(); --q)  g->next();
                    g->rewind();
                }
                vector<Bond> exp;
                for (const Bond& b : all[anchor])
                    if (b.d >= rmin && b.d <= rmax &&
                            count(sel.begin(), sel.end(), b.i1))  exp.push_back(b);
                vector<Bond> got = collect(*g, m, ex, mult, nall);
                VT_CHECK(g->finished(), "finished");
                compareBonds("bonds", got, exp, true);
                fresh = true;
                ++nenum;
                if (exp.size() >= 5)  big = true;
                if (exp.empty())  c.label("empty");
                if (rmin > 0 && !exp.empty())  c.label("rmin");
            }
        }
        // changed configuration ends the enumeration until rewind
        bool ends = op < 3 || (op == 3 && rmax != rmax0) || (op == 4 && rmin != rmin0);
        if (ends)  VT_CHECK(g->finished(), "not finished before rewind");
    }
    g->rewind();
    vector<Bond> exp;
    for (const Bond& b : all[anchor])
        if (b.d >= rmin && b.d <= rmax &&
                count(sel.begin(), sel.end(), b.i1))  exp.push_back(b);
    compareBonds("bonds at the end", collect(*g, m, ex, mult, nall), exp, true);
    if (big || exp.size() >= 5)  c.nontrivial();
}

VT_PROP(twogenerators, "two generators of one structure advanced alternately, with bonds", 16000, 240000)
{
    GenOpts o;
    o.minsites = 1;
    o.maxsites = 5;
    Model m = genModel(c, o);
    const int n = m.sites.size();
    if (!n)  c.discard();
    c.note() << m.str();
    StructureAdapterPtr s = build(m);
    vector<vector<ExpSite> > ex = expandAll(m);
    double rm[2];
    int an[2];
    sr::BaseBondGeneratorPtr g[2];
    vector<Bond> got[2];
    for (int k = 0; k < 2; ++k)
    {
        g[k] = s->createBondGenerator();
        an[k] = c.below(n);
        rm[k] = clearLimit(m, c.real(0.5, 5));
        g[k]->selectAnchorSite(an[k]);
        g[k]->setRmax(rm[k]);
        g[k]->rewind();
    }
    while (!g[0]->finished() || !g[1]->finished())
    {
        int k = g[0]->finished() ? 1 : g[1]->finished() ? 0 : int(c.below(2));
        Bond b;
        b.i0 = g[k]->site0();
        b.i1 = g[k]->site1();
        b.d = g[k]->distance();
        b.r01 = fromR3(R3::Vector(g[k]->r01()));
        b.msd = g[k]->msd();
        got[k].push_back(b);
        g[k]->next();
        VT_CHECK(got[k].size() < 20000, "too many bonds");
        if (got[0].size() + got[1].size() > 3000)  break;
    }
    for (int k = 0; k < 2; ++k)
    {
        while (!g[k]->finished())
        {
            Bond b;
            b.i0 = g[k]->site0();
            b.i1 = g[k]->site1();
            b.d = g[k]->distance();
            b.r01 = fromR3(R3::Vector(g[k]->r01()));
            b.msd = g[k]->msd();
            got[k].push_back(b);
            g[k]->next();
            VT_CHECK(got[k].size() < 20000, "too many bonds");
        }
        compareBonds("generator", got[k], bonds(m, an[k], 0, rm[k]), true);
    }
    if (!got[0].empty() && !got[1].empty())  c.nontrivial();
}
