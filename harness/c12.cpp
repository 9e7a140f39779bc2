// C12 Bond valence sums follow the bond valence formula
#include "calc.hpp"
#include "bvref.hpp"
#include "pdfref.hpp"

using namespace std;
using namespace calc;
using namespace diffpy::srreal;
using bvref::Ion;

namespace {

struct Setup
{
    ref::Model m;
    map<string, bvref::Symbol> symbols;
    bvref::Model tb;
    double rmin = 0, rmax = 100, eps = 1e-5;
    pdfref::Masks masks;
};

Ion ionOf(const Setup& s, int i)
{
    const bvref::Symbol& x = s.symbols.at(s.m.sites[i].type);
    return Ion(x.bare, s.tb.getValence(x.smbl, x.valence));
}

void check(Case& c, const Setup& s, const BVSCalculator& q, const string& what, bool& useful)
{
    int n = s.m.sites.size();
    vector<int> mult = ref::multiplicities(s.m);
    double used = q.getRmaxUsed();
    // neglected bonds are below the precision
    VT_CHECK(used <= s.rmax, "range is above rmax");
    for (int i = 0; i < n; ++i)
        for (int j = i; j < n; ++j)
            if (used < s.rmax)
            {
                double x = s.tb.bv(ionOf(s, i), ionOf(s, j), used);
                VT_CHECK(x <= s.eps * (1 + 1e-9), what << ": valence of " << x <<
                        " neglected between sites " << i << " " << j << ", used range is " << used);
            }
    QuantityType val = q.value(), vs = q.valences(), df = q.bvdiff();
    VT_CHECK(int(val.size()) == n && int(vs.size()) == n && int(df.size()) == n, "size of results");
    double sq = 0, sqtol = 0, occ = 0;
    for (int i = 0; i < n; ++i)
    {
        Ion a = ionOf(s, i);
        VT_CHECK(vs[i] == a.second, what << ": valence of site " << i << " is " << vs[i]);
        double e = 0, tol = 1e-12;
        int cnt = 0;
        for (const ref::Bond& b : ref::bonds(s.m, i, max(s.rmin - 1e-6, 0.0), used + 1e-6))
        {
            if (!s.masks.get(s.m, b.i0, b.i1))  continue;
            double x = s.m.sites[b.i1].occ * s.tb.bv(a, ionOf(s, b.i1), b.d);
            if (fabs(b.d - s.rmin) < 1e-6 || fabs(b.d - used) < 1e-6)  tol += x;
            else  e += x;
            if (x > 1e-3)  ++cnt;
        }
        tol += 1e-10 * e;
        if (a.second < 0)  e *= -1;
        if (!(fabs(val[i] - e) <= tol))
            vt::fail(what + ": bond valence sum of site " + vt::str(i) + " " +
                    s.m.sites[i].type + " is " + vt::str(val[i]) + ", expected " + vt::str(e));
        double d = fabs(double(a.second)) - fabs(e);
        if (!(fabs(df[i] - d) <= tol + 1e-13))
            vt::fail(what + ": bvdiff of site " + vt::str(i) + " is " + vt::str(df[i]) + ", expected " + vt::str(d));
        double w = mult[i] * s.m.sites[i].occ;
        occ += w;
        sq += w * df[i] * df[i];
        if (cnt > 2)  useful = true;
    }
    double ms = occ > 0 ? sq / occ : 0.0;
    vt::checkClose(what + " bvmsdiff", q.bvmsdiff(), ms, 1e-11, 1e-14);
    vt::checkClose(what + " bvrmsdiff", q.bvrmsdiff(), sqrt(ms), 1e-11, 1e-14);
}

}   // namespace


VT_PROP(sums, "a site has at least 3 bonds with valence above 0.001", 36000, 800000)
{
    Setup s;
    // symbols that have bond valence parameters
    vector<bvref::Symbol> sy;
    int nsy = c.range(1, 4);
    vector<bvref::Key> keys;
    static vector<bvref::Key> allkeys, samekeys;
    if (allkeys.empty())
        for (auto& kv : bvref::standard())
        {
            allkeys.push_back(kv.first);
            if (kv.first.first.second == kv.first.second.second)  samekeys.push_back(kv.first);
        }
    while (int(sy.size()) < nsy)
    {
        bvref::Key k = c.chance(1, 10) ? c.pick(samekeys) : c.pick(allkeys);
        for (Ion a : {k.first, k.second})
        {
            if (a.second == 9)  a.second = c.range(1, 3);
            if (!sy.empty() && a.second < 0 && c.flag())  continue;
            bvref::Symbol x;
            x.bare = a.first;
            x.valence = a.second;
            int v = abs(a.second);
            x.smbl = a.first + (v > 1 || c.flag() ? string(1, '0' + v) : "") + (a.second > 0 ? "+" : "-");
            if (c.chance(1, 8))  x.smbl = a.first, x.valence = 0;
            sy.push_back(x);
        }
    }
    GenOpts so = structureOpts(BVS);
    so.types.clear();
    for (auto& x : sy)
    {
        so.types.push_back(x.smbl);
        s.symbols[x.smbl] = x;
    }
    so.minsites = c.chance(1, 20) ? 0 : 2;
    so.mindist = c.oneof({1.2, 0.6, 1.6});
    so.maxsites = 5;
    so.maxcell = 24;
    s.m = genModel(c, so);
    if (ref::hasAmbiguousSelf(s.m))  c.discard();
    BVSCalculator q;
    BVSCalculator* pq = &q;
    c.note() << s.m.str() << "\n";
    int rounds = c.range(1, 3);
    bool useful = false;
    StructureAdapterPtr stru;
    for (int r = 0; r < rounds; ++r)
    {
        if (r && c.flag())
        {
            c.note() << mutateModel(c, s.m, so) << "\n";
            if (ref::hasAmbiguousSelf(s.m))  c.discard();
            stru.reset();
        }
        int nop = c.range(0, 4);
        for (int i = 0; i < nop; ++i)
        {
            BVParametersTable& tb = *pq->getBVParamTable();
            const bvref::Symbol& x = c.pick(sy);
            const bvref::Symbol& y = c.pick(sy);
            int vx = s.tb.getValence(x.smbl, x.valence);
            int vy = s.tb.getValence(y.smbl, y.valence);
            switch (c.below(9))
            {
                case 0:
                case 1:
                {
                    bvref::Par p;
                    p.ro = c.oneof({1.6, 2.0, 1.2, 2.5});
                    p.b = c.oneof({0.37, 0.3, 0.45, 0.0, -0.2});
                    if (c.chance(1, 4) && vx > 0)  vx = 9;
                    tb.setCustom(x.bare, vx, y.bare, vy, p.ro, p.b);
                    s.tb.custom[bvref::key(Ion(x.bare, vx), Ion(y.bare, vy))] = p;
                    c.note() << "custom " << x.bare << " " << vx << " " << y.bare << " " << vy <<
                        " Ro " << p.ro << " B " << p.b << "\n";
                    c.label("custom parameters");
                    break;
                }
                case 2:
                    tb.resetCustom(x.bare, vx, y.bare, vy);
                    s.tb.custom.erase(bvref::key(Ion(x.bare, vx), Ion(y.bare, vy)));
                    c.note() << "reset " << x.bare << " " << vx << " " << y.bare << " " << vy << "\n";
                    break;
                case 3:
                case 4:
                {
                    int v = c.oneof({2, -2, 0, 1, -1, 3, 4});
                    tb.setAtomValence(x.smbl, v);
                    s.tb.valence[x.smbl] = v;
                    c.note() << "valence of " << x.smbl << " " << v << "\n";
                    c.label("custom valence");
                    break;
                }
                case 5:
                    s.eps = c.oneof({1e-5, 1e-3, 1e-2, 1e-4, 1e-6, 0.3});
                    if (c.flag())  pq->setValencePrecision(s.eps);
                    else  pq->setDoubleAttr("valenceprecision", s.eps);
                    c.note() << "precision " << s.eps << "\n";
                    break;
                case 6:
                    s.rmax = c.oneof({100.0, 3.5003, 2.5007, 5.0009, 0.0});
                    pq->setRmax(s.rmax);
                    c.note() << "rmax " << s.rmax << "\n";
                    break;
                case 7:
                    s.rmin = c.oneof({0.0, 1.5003, 2.2007, 1.0});
                    pq->setRmin(s.rmin);
                    c.note() << "rmin " << s.rmin << "\n";
                    break;
                default:
                    if (c.chance(1, 4))
                    {
                        tb.resetAll();
                        s.tb.custom.clear();
                        c.note() << "reset all\n";
                    }
                    else if (c.chance(1, 4))
                    {
                        tb.resetAtomValences();
                        s.tb.valence.clear();
                        c.note() << "reset valences\n";
                    }
                    else if (c.flag())
                    {
                        BVParametersTablePtr t = boost::make_shared<BVParametersTable>();
                        pq->setBVParamTable(t);
                        s.tb = bvref::Model();
                        c.note() << "new table\n";
                    }
            }
        }
        for (auto& x : sy)
            for (auto& y : sy)
                if (s.tb.ambiguous(Ion(x.bare, s.tb.getValence(x.smbl, x.valence)),
                            Ion(y.bare, s.tb.getValence(y.smbl, y.valence))))  c.discard();
        // masks by type refer to changing types
        s.masks = pdfref::genMasks(c, s.m);
        s.masks.apply(*pq);
        c.note() << s.masks.str() << "\n";
        // precision that needs too many bonds
        double need = 0;
        int n = s.m.sites.size();
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j)
            {
                const bvref::Par* p = s.tb.lookup(ionOf(s, i), ionOf(s, j));
                if (p)  need = max(need, p->ro - p->b * log(s.eps));
            }
        need = min(need, s.rmax);
        if (s.m.periodic() && n)
        {
            double nb = pow(need + 1, 3) * 4.2 / ref::volume(s.m) * ref::cellAtoms(s.m) * n;
            if (nb > 60000)  c.discard();
        }
        bool same = stru && c.flag();
        if (!stru)  stru = ref::build(s.m);
        if (same)  pq->eval();
        else  pq->eval(stru);
        check(c, s, *pq, "round " + vt::str(r), useful);
        if (s.m.kind == ref::CRYSTAL)  c.label("crystal");
        if (s.m.kind == ref::MOLECULE)  c.label("molecule");
        if (c.chance(1, 6))
        {
            // the same results in a parallel run
            vector<string> parts;
            int ncpu = c.range(2, 4);
            for (int k = 0; k < ncpu; ++k)
            {
                BVSCalculator w(*pq);
                w.setupParallelRun(k, ncpu);
                w.eval(stru);
                parts.push_back(w.getParallelData());
            }
            BVSCalculator mq(*pq);
            mq.setStructure(stru);
            for (auto& p : parts)  mq.mergeParallelData(p, ncpu);
            check(c, s, mq, "parallel", useful);
            c.label("parallel");
        }
    }
    if (useful)  c.nontrivial();
}
