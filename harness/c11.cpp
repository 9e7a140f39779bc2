// C11 Pair masks select exactly the requested pairs
#include "calc.hpp"

using namespace std;
using namespace calc;
using namespace diffpy::srreal;

namespace {

// Masks as histories of commands where the last applicable command wins.
// Index and type commands are alternative modes.  A type command starts from
// the default mask, an index command after type commands starts from the pair
// masks as they were resolved for the assigned structure.
struct MaskModel
{
    enum What { PAIR, SITE, TYPE, TYPEALL, INVERT };
    struct Cmd { What what; int i, j; string a, b; bool v; };
    bool def = true;
    bool typemode = false;
    map<pair<int,int>, bool> base;      // start of the index mode
    vector<Cmd> cmds;

    void all(bool v)
    {
        def = v;
        typemode = false;
        base.clear();
        cmds.clear();
    }

    bool pairValue(int i, int j) const
    {
        auto k = make_pair(min(i, j), max(i, j));
        bool rv = base.count(k) ? base.at(k) : def;
        for (const Cmd& c : cmds)
        {
            if (c.what == INVERT)  rv = !rv;
            if (c.what == PAIR && k == make_pair(min(c.i, c.j), max(c.i, c.j)))  rv = c.v;
            if (c.what == SITE && (i == c.i || j == c.i))  rv = c.v;
        }
        return rv;
    }

    bool typeValue(const string& a, const string& b) const
    {
        bool rv = def;
        for (const Cmd& c : cmds)
        {
            if (c.what == INVERT)  rv = !rv;
            if (c.what == TYPE && ((c.a == a && c.b == b) || (c.a == b && c.b == a)))  rv = c.v;
            if (c.what == TYPEALL && (c.a == a || c.a == b))  rv = c.v;
        }
        return rv;
    }

    bool get(const ref::Model& m, int i, int j) const
    {
        return typemode ? typeValue(m.sites[i].type, m.sites[j].type) : pairValue(i, j);
    }

    bool currentDefault() const
    {
        bool rv = def;
        for (const Cmd& c : cmds)  if (c.what == INVERT)  rv = !rv;
        return rv;
    }

    void toIndex(const ref::Model& m)
    {
        if (!typemode)  return;
        map<pair<int,int>, bool> b;
        for (int i = 0; i < int(m.sites.size()); ++i)
            for (int j = i; j < int(m.sites.size()); ++j)  b[make_pair(i, j)] = get(m, i, j);
        def = currentDefault();
        base = b;
        cmds.clear();
        typemode = false;
    }

    void toType()
    {
        if (typemode)  return;
        def = currentDefault();
        base.clear();
        cmds.clear();
        typemode = true;
    }
};

string cs(Case& c, const char* lo, const char* hi) { return c.flag() ? hi : lo; }

vector<ref::Bond> unmasked(const ref::Model& m, const MaskModel& k, double lo, double hi)
{
    vector<ref::Bond> rv;
    for (auto& bs : ref::allBonds(m, lo, hi))
        for (auto& b : bs)  if (k.get(m, b.i0, b.i1))  rv.push_back(b);
    return rv;
}

GenOpts options()
{
    GenOpts so = structureOpts(BOND);
    so.maxsites = 5;
    so.maxcell = 12;
    so.types = {"C", "O", "Na1+", "all1", "Zr"};
    return so;
}

}   // namespace


VT_PROP(commands, "an evaluation with both masked and unmasked bonds after at least 3 commands", 120000, 2400000)
{
    GenOpts so = options();
    vector<string> tp = so.types;
    tp.push_back("Q");
    vector<ref::Model> ms(1);       // empty structure
    int nm = c.range(1, 3);
    for (int i = 0; i < nm; ++i)
    {
        ref::Model m = genModel(c, so);
        if (ref::hasAmbiguousSelf(m))  c.discard();
        ms.push_back(m);
        c.note() << i + 1 << ": " << m.str() << "\n";
    }
    bool bondcalc = c.flag();
    boost::shared_ptr<PairQuantity> q;
    if (bondcalc)  q = boost::make_shared<BondCalculator>();
    else  q = boost::make_shared<PairCounter>();
    q->setRmax(4.0007);
    if (bondcalc && c.flag())  q->setEvaluatorType(BASIC);
    MaskModel k;
    int cur = 0;
    // A structure assignment applies masks of one site with all again, which
    // is avoided when there were contradicting commands (known finding).
    // A pair command that contradicts such mask drops it, the pairs that exist
    // at that time must nevertheless stay as requested.
    bool frozen = false;
    size_t sitelimit = size_t(-1);
    map<int, bool> siterules;
    int ncmd = 0;
    bool useful = false;
    int nsteps = c.range(3, 12);
    int mode = c.below(3);
    for (int st = 0; st < nsteps; ++st)
    {
        int n = ms[cur].sites.size();
        int op = c.below(12);
        if (op > 9)  op = 8 + op % 2;
        if (st == 0 && c.chance(2, 3))  op = 0;
        if (st > 1 && st < nsteps - 2 && c.chance(1, 4))  op = (mode == 1) ? 6 : 1 + c.below(3);
        // stay with one way of masking in most histories
        if (mode == 0 && op >= 4 && op <= 6)  op -= 3;
        if (mode == 1 && op >= 1 && op <= 3)  op += 3;
        if (st == nsteps - 2 && !frozen)  op = 0;
        if (st == nsteps - 1 && !frozen)  op = 9;
        bool v = c.flag();
        switch (op)
        {
            case 0:
                if (frozen)  break;
            {
                int nxt = c.chance(1, 6) ? 0 : c.range(1, nm);
                if (ms[nxt].sites.size() > sitelimit)  nxt = cur;
                if (st == nsteps - 2 && !ms[nxt].sites.empty())  c.label("structure at the end");
                if (sitelimit != size_t(-1) && ms[nxt].sites.size())
                    c.label("assigned after a pair overruled a site");
                cur = nxt;
                c.note() << "structure " << cur << "\n";
                q->setStructure(ref::build(ms[cur]));
                c.label("structure assigned");
                break;
            }
            case 1:
            case 2:
            {
                int i = c.below(1 + c.below(6)), j = c.below(6);
                c.note() << "pair " << i << " " << j << " " << v << "\n";
                q->setPairMask(i, j, v);
                k.toIndex(ms[cur]);
                for (int x : {i, j})
                    if (siterules.count(x) && siterules[x] != v)
                    {
                        sitelimit = min(sitelimit, size_t(n));
                        siterules.erase(x);
                    }
                k.cmds.push_back({MaskModel::PAIR, i, j, "", "", v});
                ++ncmd;
                break;
            }
            case 3:
            {
                int i = c.below(1 + c.below(6));
                c.note() << "site " << i << " all " << v << "\n";
                int any = -1 - int(c.below(2));
                if (c.flag())  q->setPairMask(i, any, v);
                else  q->setPairMask(any, i, v);
                k.toIndex(ms[cur]);
                siterules.erase(i);
                for (auto& kv : siterules)  if (kv.second != v)  frozen = true;
                siterules[i] = v;
                k.cmds.push_back({MaskModel::SITE, i, 0, "", "", v});
                c.label("site with all");
                ++ncmd;
                break;
            }
            case 4:
            case 5:
            {
                string a = c.pick(tp), b = c.pick(tp);
                c.note() << "types " << a << " " << b << " " << v << "\n";
                q->setTypeMask(a, b, v);
                k.toType();
                siterules.clear(), frozen = false, sitelimit = size_t(-1);
                k.cmds.push_back({MaskModel::TYPE, 0, 0, a, b, v});
                c.label("types");
                ++ncmd;
                break;
            }
            case 6:
            {
                string a = c.pick(tp);
                c.note() << "type " << a << " all " << v << "\n";
                if (c.flag())  q->setTypeMask(a, cs(c, "all", "ALL"), v);
                else  q->setTypeMask(cs(c, "all", "ALL"), a, v);
                k.toType();
                siterules.clear(), frozen = false, sitelimit = size_t(-1);
                k.cmds.push_back({MaskModel::TYPEALL, 0, 0, a, "", v});
                c.label("type with all");
                ++ncmd;
                break;
            }
            case 7:
            {
                int how = c.below(4);
                c.note() << "all " << v << "\n";
                if (how == 0)  q->maskAllPairs(v);
                if (how == 1)  q->setPairMask(-1, -1, v);
                if (how == 2)  q->setTypeMask("all", "ALL", v);
                if (how == 3)  q->setTypeMask("ALL", "all", v);
                k.all(v);
                siterules.clear(), frozen = false, sitelimit = size_t(-1);
                ++ncmd;
                break;
            }
            case 8:
                if (c.flag())  break;
                c.note() << "invert\n";
                q->invertMask();
                k.cmds.push_back({MaskModel::INVERT, 0, 0, "", "", false});
                for (auto& kv : siterules)  kv.second = !kv.second;
                c.label("invert");
                ++ncmd;
                break;
            default:
                if (bondcalc && !frozen && st < nsteps - 1 && c.chance(1, 3))
                {
                    c.note() << "serialize\n";
                    q = cloneBySerialization(q);
                    break;
                }
                if (frozen)  break;
                c.note() << "evaluate\n";
                q->eval();
                vector<ref::Bond> eb = unmasked(ms[cur], k, 0, 4.0007);
                vector<int> mult = ref::multiplicities(ms[cur]);
                if (bondcalc)
                {
                    BondCalculator& bc = dynamic_cast<BondCalculator&>(*q);
                    Results r = results(bc);
                    for (auto& b : eb)  b.msd = 0;
                    ref::compareBonds("bonds", r.bonds, eb, false);
                }
                else
                {
                    double s = 0;
                    for (auto& b : eb)  s += 0.5 * mult[b.i0];
                    vt::checkClose("pair count", q->value().at(0), s, 1e-12, 1e-9);
                }
                size_t nall = 0;
                for (auto& bs : ref::allBonds(ms[cur], 0, 4.0007))  nall += bs.size();
                if (eb.size() && eb.size() < nall && ncmd >= 3)  useful = true;
        }
        const ref::Model& m = ms[cur];
        n = m.sites.size();
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j)
            {
                bool g = q->getPairMask(i, j);
                VT_CHECK(g == q->getPairMask(j, i), "mask of " << i << " " << j << " is not symmetric");
                VT_CHECK(g == k.get(m, i, j), "mask of pair " << i << " " << j << " is " << g);
            }
        for (const string& a : tp)
            for (const string& b : tp)
            {
                bool g = q->getTypeMask(a, b);
                VT_CHECK(g == q->getTypeMask(b, a), "mask of " << a << " " << b << " is not symmetric");
                bool e = k.typemode ? k.typeValue(a, b) : k.currentDefault();
                VT_CHECK(g == e, "mask of types " << a << " " << b << " is " << g);
            }
        if (!k.typemode && !frozen && sitelimit == size_t(-1) && siterules.empty())
            VT_CHECK(q->getPairMask(7, 9) == k.pairValue(7, 9), "mask of sites not present");
    }
    if (useful)  c.nontrivial();
}


namespace {

// results that are sums over pairs
map<string, vector<double> > sums(const PairQuantity& q)
{
    map<string, vector<double> > rv;
    Kind k = kindOf(q);
    if (k == PDF)
    {
        const PDFCalculator& p = dynamic_cast<const PDFCalculator&>(q);
        rv["pdf"] = p.getPDF();
        rv["rdf"] = p.getRDF();
        rv["f"] = p.getF();
    }
    else if (k == DEBYE)
    {
        const DebyePDFCalculator& p = dynamic_cast<const DebyePDFCalculator&>(q);
        rv["pdf"] = p.getPDF();
        rv["rdf"] = p.getRDF();
        rv["f"] = p.getF();
    }
    else if (k == OVERLAP)
    {
        const OverlapCalculator& p = dynamic_cast<const OverlapCalculator&>(q);
        rv["sitesq"] = p.siteSquareOverlaps();
        rv["coordinations"] = p.coordinations();
        rv["total"] = vector<double>(1, p.totalSquareOverlap());
        rv["count"] = vector<double>(1, double(p.distances().size()));
    }
    else if (k == BOND)
    {
        const BondCalculator& p = dynamic_cast<const BondCalculator&>(q);
        double s = 0;
        for (double d : p.distances())  s += d;
        rv["sum"] = {s, double(p.distances().size())};
    }
    else  rv["value"] = q.value();
    return rv;
}

void addTo(map<string, vector<double> >& a, const map<string, vector<double> >& b)
{
    if (a.empty())  { a = b; return; }
    for (auto& kv : b)
    {
        vector<double>& x = a[kv.first];
        VT_CHECK(x.size() == kv.second.size(), "sizes of partial " << kv.first);
        for (size_t i = 0; i < x.size(); ++i)  x[i] += kv.second[i];
    }
}

double mxabs(const map<string, vector<double> >& a, const string& n)
{
    double rv = 0;
    for (double x : a.at(n))  rv = max(rv, fabs(x));
    return rv;
}

}   // namespace


// Partial results over a partition of pairs add up to the total.
VT_PROP(partition, "at least 2 partial results that are not zero", 40000, 800000)
{
    Kind kd = Kind(c.below(NKINDS));
    GenOpts so = structureOpts(kd);
    so.maxsites = 4;
    so.maxcell = 12;
    so.minsites = 1;
    ref::Model m = genModel(c, so);
    if (ref::hasAmbiguousSelf(m))  c.discard();
    CfgOpts co;
    co.masks = false;
    co.nsites = m.sites.size();
    co.rmaxhi = 5.0;
    co.mindebyeprec = 1e-13;
    co.minprec = 1e-9;
    co.cones = false;
    PQPtr q = make(kd);
    Op ini = initialConfig(c, kd, co);
    ini.fn(*q);
    c.note() << kindnames[kd] << " " << ini.desc << "\n" << m.str() << "\n";
    int nc = c.below(3);
    for (int i = 0; i < nc; ++i)
    {
        Op o = genConfigOp(c, kd, co);
        o.fn(*q);
        c.note() << o.desc << "\n";
    }
    if (c.chance(1, 3) && supportsOptimized(kd))  q->setEvaluatorType(BASIC);
    StructureAdapterPtr stru = ref::build(m);
    q->eval(stru);
    q->eval(stru);
    map<string, vector<double> > total = sums(*q), part;
    vector<map<string, vector<double> > > pieces;
    int n = m.sites.size();
    int how = c.below(3);
    auto evaluate = [&]() {
        if (c.flag())  q->eval(stru);
        else  q->eval();
        pieces.push_back(sums(*q)); };
    if (how == 0)
    {
        // a mask and its inverse
        int k = c.range(1, 4);
        bool bytype = c.flag();
        for (int i = 0; i < k; ++i)
        {
            int a = c.below(n), b = c.below(n);
            bool v = c.flag();
            if (bytype)  q->setTypeMask(m.sites[a].type, c.chance(1, 4) ? "all" : m.sites[b].type, v);
            else  q->setPairMask(a, c.chance(1, 4) ? -1 : b, v);
        }
        evaluate();
        q->invertMask();
        evaluate();
        c.label("inverse");
    }
    else if (how == 1)
    {
        set<string> ts;
        for (auto& s : m.sites)  ts.insert(s.type);
        for (const string& a : ts)
            for (const string& b : ts)
            {
                if (b < a)  continue;
                q->maskAllPairs(false);
                q->setTypeMask(a, b, true);
                evaluate();
            }
        c.label("types");
    }
    else
    {
        for (int i = 0; i < n; ++i)
            for (int j = i; j < n; ++j)
            {
                q->maskAllPairs(false);
                q->setPairMask(i, j, true);
                evaluate();
            }
        c.label("pairs");
    }
    int nz = 0;
    map<string, double> hist;
    for (auto& p : pieces)
    {
        bool some = false;
        for (auto& kv : p)
        {
            double x = mxabs(p, kv.first);
            hist[kv.first] = max(hist[kv.first], x);
            if (x > 1e-9)  some = true;
        }
        if (some)  ++nz;
        addTo(part, p);
    }
    for (auto& kv : total)
    {
        double mx = max(hist[kv.first], mxabs(total, kv.first));
        // single pairs at the Debye precision
        vt::checkCloseSeq("sum of partial " + kv.first, part[kv.first], kv.second, 0, 1e-8 * mx + 1e-10);
    }
    c.label(kindnames[kd]);
    if (nz >= 2)  c.nontrivial();
}


// Commands for one site with all that contradict other commands are kept as a
// single flag per site.  These fixed histories are listed in known-findings.txt,
// anything else is checked above.
VT_PROP(contradictions, "a history that ends in contradicting masks", 40, 40)
{
    AtomicStructureAdapterPtr stru = boost::make_shared<AtomicStructureAdapter>();
    for (int i = 0; i < 4; ++i)
    {
        Atom a;
        a.atomtype = "C";
        a.xyz_cartn = R3::Vector(i, 0, 0);
        stru->append(a);
    }
    PairCounter pc;
    vector<bool> got, want;
    bool fresh;
    if (c.flag())
    {
        // site 0 is unmasked last, thus the pair 0 1 is used
        pc.setStructure(stru);
        for (int i : {1, 2, 3})  pc.setPairMask(i, -1, false);
        pc.setPairMask(0, -1, true);
        fresh = pc.getPairMask(0, 1) && pc.getPairMask(0, 2) && pc.getPairMask(0, 3);
        VT_CHECK(fresh, "the last command does not win on the assigned structure");
        // order of updates is unspecified, thus try several sets of sites
        bool kept = true;
        for (int r = 0; r < 4; ++r)
        {
            PairCounter q;
            q.setStructure(stru);
            for (int i = 0; i < 4; ++i)  if (i != r)  q.setPairMask(i, -1, false);
            q.setPairMask(r, -1, true);
            q.setStructure(stru);
            for (int i = 0; i < 4; ++i)  kept = kept && q.getPairMask(r, i);
        }
        if (!kept)  c.knownFinding("contradicting setPairMask(i, all, false), setPairMask(j, all, true) "
                "are applied in arbitrary order on a structure assignment");
        c.label("two sites");
    }
    else
    {
        // pair 0 1 stays, all other pairs of site 0 are masked
        pc.setPairMask(0, -1, false);
        pc.setPairMask(0, 1, true);
        pc.setStructure(stru);
        VT_CHECK(pc.getPairMask(0, 1), "the last command does not win");
        if (pc.getPairMask(0, 2) || pc.getPairMask(0, 3))
            c.knownFinding("setPairMask(i, j, true) after setPairMask(i, all, false) "
                "drops the mask of site i for a structure assigned later");
        c.label("site and pair");
    }
    c.nontrivial();
}
