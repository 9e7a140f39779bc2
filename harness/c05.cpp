// C05 Bond list and pair count are complete, sorted and filterable
#include "calc.hpp"

using namespace std;
using namespace calc;
using namespace diffpy::srreal;

namespace {

struct Cone { ref::V3 ax; double deg; };

struct Mask
{
    bool def = true;
    map<pair<int,int>, bool> prs;
    map<pair<string,string>, bool> tps;
    bool typed = false;

    bool get(int i, int j, const ref::Model& m) const
    {
        if (typed)
        {
            string a = m.sites[i].type, b = m.sites[j].type;
            auto t = tps.find(make_pair(min(a, b), max(a, b)));
            return t == tps.end() ? def : t->second;
        }
        auto p = prs.find(make_pair(min(i, j), max(i, j)));
        return p == prs.end() ? def : p->second;
    }
};

double angle(const ref::V3& a, const ref::V3& b)
{
    return 180 / M_PI * atan2(ref::norm(ref::cross(a, b)), ref::dot(a, b));
}

// structure with lattice-like coincident distances or a generic one
ref::Model pickModel(Case& c, const GenOpts& so)
{
    for (int k = 0; k < 4; ++k)
    {
        ref::Model m = genModel(c, so);
        if (!ref::hasAmbiguousSelf(m))  return m;
    }
    c.discard();
    return ref::Model();
}

}   // namespace

VT_PROP(bonds, "a bond list with some bonds and something filtered out by a mask, a cone or a limit", 40000, 800000)
{
    GenOpts so = structureOpts(BOND);
    so.mindist = c.oneof({0.0, 0.5});
    so.maxsites = c.oneof({4, 7});
    BondCalculator bc;
    PairCounter pc;
    double lo = 0, hi = 5;
    Mask mask;
    mask.typed = c.flag();
    vector<Cone> cones;
    ref::Model m = pickModel(c, so);
    StructureAdapterPtr stru = ref::build(m);
    bool reuse = false;
    vector<string> types = typePool(so);
    int rounds = c.range(1, 4);
    bool some = false, filtered = false;
    for (int rd = 0; rd < rounds; ++rd)
    {
        if (rd && c.flag())
        {
            if (c.flag())
            {
                ref::Model m2 = m;
                string what = mutateModel(c, m2, so);
                if (validModel(m2, so) && !ref::hasAmbiguousSelf(m2))  { m = m2; reuse = c.flag(); c.note() << what << "\n"; }
            }
            else  m = pickModel(c, so), reuse = false;
            if (!(reuse && editInPlace(stru, m)))  stru = ref::build(m);
            if (auto x = boost::dynamic_pointer_cast<CrystalStructureAdapter>(stru))  x->updateSymmetryPositions();
        }
        c.note() << m.str() << "\n";
        int nops = c.below(5);
        vector<vector<ref::Bond> > all = ref::allBonds(m, 0, 7.2);
        for (int k = 0; k < nops; ++k)
        {
            switch (c.below(6))
            {
                case 0:
                {
                    double a = c.oneof({0.0, 0.5, 1.0, 2.0, 2.5}), b = c.oneof({3.0, 4.0, 6.0, 2.0, 0.0});
                    lo = a == 0 ? 0 : a + c.real(0, 0.5);
                    hi = b + c.real(0, 1.0);
                    break;
                }
                case 1:
                {
                    ref::V3 ax = genUnitVector(c);
                    if (c.flag() && m.sites.size())
                    {
                        // along an actual bond
                        const vector<ref::Bond>& b = all[c.below(all.size())];
                        if (!b.empty())  ax = b[c.below(b.size())].r01;
                        c.label("axis along a bond");
                    }
                    double deg = c.oneof({10.0, 0.5, 45.0, 89.0, 120.0, 180.0, 200.0});
                    if (deg != 180)  deg += c.real(0, 1);
                    double sc = c.oneof({1.0, 0.01, 100.0, 3.0});
                    ax = sc * ax;
                    c.note() << "cone " << ref::str(ax) << " " << deg << "\n";
                    bc.filterCone(ref::toR3(ax), deg);
                    Cone cn = {ax, deg};
                    cones.push_back(cn);
                    break;
                }
                case 2:
                    if (!cones.empty() && c.chance(1, 3))
                    {
                        bc.filterOff();
                        cones.clear();
                        c.note() << "filterOff\n";
                    }
                    break;
                case 3:
                {
                    bool v = c.flag();
                    bc.maskAllPairs(v);
                    pc.maskAllPairs(v);
                    mask.def = v;
                    mask.prs.clear();
                    mask.tps.clear();
                    c.note() << "mask all " << v << "\n";
                    break;
                }
                default:
                {
                    bool v = c.flag();
                    int n = max(int(m.sites.size()), 1);
                    int i = c.below(n + 1), j = c.below(n + 1);
                    string a = c.pick(types), b = c.pick(types);
                    if (m.sites.size() && c.flag())  a = m.sites[c.below(m.sites.size())].type;
                    if (mask.typed)
                    {
                        bc.setTypeMask(a, b, v);
                        pc.setTypeMask(a, b, v);
                        mask.tps[make_pair(min(a, b), max(a, b))] = v;
                        c.note() << "type mask " << a << " " << b << " " << v << "\n";
                    }
                    else
                    {
                        bc.setPairMask(i, j, v);
                        pc.setPairMask(i, j, v);
                        mask.prs[make_pair(min(i, j), max(i, j))] = v;
                        c.note() << "pair mask " << i << " " << j << " " << v << "\n";
                    }
                }
            }
        }
        // limits clear of any bond length
        lo = lo == 0 ? 0 : ref::clearLimit(m, lo);
        hi = ref::clearLimit(m, hi);
        bc.setRmin(lo);
        bc.setRmax(hi);
        pc.setRmin(lo);
        pc.setRmax(hi);
        if (c.chance(1, 4))
        {
            PQEvaluatorType t = c.oneof({BASIC, OPTIMIZED, CHECK});
            c.note() << "evaluator " << int(t) << "\n";
            bc.setEvaluatorType(t);
        }
        c.note() << "range " << lo << " " << hi << "\n";
        vector<ref::Bond> exp;
        double cnt = 0;
        vector<int> mult = ref::multiplicities(m);
        set<string> tt;
        for (size_t i = 0; i < all.size(); ++i)
            for (ref::Bond& b : all[i])
            {
                bool inr = lo <= b.d && b.d <= hi;
                if (!inr)  filtered = true;
                if (!inr)  continue;
                if (!mask.get(b.i0, b.i1, m))  { filtered = true; continue; }
                cnt += 0.5 * mult[i];
                bool keep = cones.empty();
                for (const Cone& cn : cones)
                {
                    double a = angle(b.r01, cn.ax);
                    if (fabs(a - cn.deg) < 1e-5 && cn.deg < 180)  c.discard();
                    if (a <= cn.deg || cn.deg >= 180)  keep = true;
                }
                if (!keep)  { filtered = true; c.label("removed by cone"); continue; }
                exp.push_back(b);
                tt.insert(vt::str(b.i0) + ":" + m.sites[b.i0].type);
                tt.insert(vt::str(b.i1) + ":" + m.sites[b.i1].type);
            }
        QuantityType dd = bc(stru);
        Results r = results(bc);
        VT_CHECK(dd == bc.distances(), "returned value");
        ref::compareBonds("bonds", r.bonds, exp, false, 1e-7);
        // directions and distances belong together
        for (const ref::Bond& b : r.bonds)
            VT_CHECK(fabs(ref::norm(b.r01) - b.d) < 1e-9 * (1 + b.d), "length of the direction");
        vector<string> et(tt.begin(), tt.end());
        VT_CHECK(r.bondtypes == et, "types " << vt::strv(r.bondtypes) << " expected " << vt::strv(et));
        pc.eval(stru);
        vt::checkClose("pair count", pc.value().at(0), cnt);
        if (!exp.empty())  some = true;
    }
    if (some && filtered)  c.nontrivial();
}
