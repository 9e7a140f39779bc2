// C03 Serialization round trip preserves state and behaviour
#include "calc.hpp"
#include <diffpy/serialization.ipp>
#include <diffpy/srreal/AtomRadiiTable.hpp>
#include <diffpy/srreal/BVParametersTable.hpp>
#include <diffpy/srreal/Lattice.hpp>
#include <diffpy/srreal/NoMetaStructureAdapter.hpp>
#include <diffpy/srreal/NoSymmetryStructureAdapter.hpp>
#include <diffpy/srreal/PDFBaseline.hpp>
#include <diffpy/srreal/PDFEnvelope.hpp>
#include <diffpy/srreal/PeakProfile.hpp>
#include <diffpy/srreal/PeakWidthModel.hpp>
#include <diffpy/srreal/ScatteringFactorTable.hpp>
#include <diffpy/srreal/StructureDifference.hpp>
#include <boost/serialization/vector.hpp>
#include <fstream>
#include <sys/wait.h>
#include <unistd.h>

using namespace std;
using namespace calc;
using namespace diffpy::srreal;

namespace {

typedef vector<StructureAdapterPtr> Strus;

struct Setup
{
    Kind k;
    GenOpts so;
    CfgOpts co;
    PQPtr pq;
    ref::Model m;
    StructureAdapterPtr cur;
    bool valid;     // results belong to the configuration
    int nops;
};


Setup prepare(Case& c, Kind k, int maxops)
{
    Setup s;
    s.k = k;
    s.nops = 0;
    s.so = structureOpts(k);
    s.so.maxsites = 5;
    s.so.maxcell = 16;
    s.co.types = typePool(s.so);
    s.co.conflictmasks = c.flag();
    s.co.siteall = c.range(-1, 1);
    s.co.masks = !c.chance(1, 3);
    s.pq = make(k);
    if (supportsOptimized(k))  s.pq->setEvaluatorType(c.oneof({sr::OPTIMIZED, sr::BASIC, sr::OPTIMIZED}));
    if (k == BOND && c.chance(1, 5))  s.pq->setEvaluatorType(sr::CHECK);
    Op ini = initialConfig(c, k, s.co);
    ini.fn(*s.pq);
    s.m = genModel(c, s.so);
    s.co.nsites = max(1, int(s.m.sites.size()));
    s.cur = ref::build(s.m);
    s.valid = false;
    c.note() << kindnames[k] << " evaluator " << int(s.pq->getEvaluatorType()) << "; " << ini.desc << "\n" << s.m.str() << "\n";
    int n = c.below(maxops + 1);
    for (int i = 0; i < n; ++i)
    {
        switch (c.below(6))
        {
            case 0:
                s.pq->eval(s.cur);
                s.valid = true;
                c.note() << "eval\n";
                break;
            case 1:
                s.pq->setStructure(s.cur);
                s.valid = false;
                c.note() << "setStructure\n";
                break;
            case 2:
                c.note() << mutateModel(c, s.m, s.so) << "\n";
                s.cur = ref::build(s.m);
                s.co.nsites = max(1, int(s.m.sites.size()));
                break;
            case 3:
                s.pq->eval(s.cur);
                s.valid = true;
                c.note() << "eval\n";
                // fall through
            default:
            {
                Op o = genConfigOp(c, k, s.co);
                o.fn(*s.pq);
                c.note() << o.desc << "\n";
                ++s.nops;
                s.valid = false;
            }
        }
    }
    if (c.flag())
    {
        s.pq->eval(s.cur);
        s.valid = true;
        c.note() << "eval\n";
    }
    return s;
}


void compareState(const string& what, const Setup& s, const PairQuantity& a, const PairQuantity& b)
{
    compareConfig(what, configOf(a, s.co.nsites + 2, s.co.types), configOf(b, s.co.nsites + 2, s.co.types));
    if (a.value() != b.value())  vt::fail(what + ": value() differs");
    if (s.valid)  compareResults(what, results(b), results(a), 1e-12, 1e-12);
    if (a.getStructure()->countSites() != b.getStructure()->countSites())  vt::fail(what + ": structure");
}


void inprocess(Case& c, Kind k)
{
    Setup s = prepare(c, k, 7);
    PQPtr q = s.pq, p = cloneBySerialization(q);
    VT_CHECK(p && p != q, "copy");
    VT_CHECK(kindOf(*p) == k, "class of the copy");
    compareState("copy", s, *q, *p);
    // copy of a copy
    if (c.chance(1, 3))
    {
        p = cloneBySerialization(p);
        compareState("second copy", s, *q, *p);
    }
    // saving does not affect the original
    StructureAdapterPtr scur = s.cur, spcur = s.cur;
    if (c.flag())  spcur = cloneBySerialization(s.cur);
    c.note() << "-- copied --\n";
    Scales hist;
    int n = c.range(1, 6), ne = 0;
    bool together = true;
    for (int i = 0; i <= n; ++i)
    {
        int op = i == n ? 0 : c.below(6);
        if (op == 0)
        {
            q->eval(scur);
            p->eval(spcur);
            s.valid = together = true;
            c.note() << "eval\n";
            ++ne;
            compareResults("continued", results(*p), results(*q), 1e-10, 1e-10, &hist);
            if (p->getEvaluatorTypeUsed() != q->getEvaluatorTypeUsed())
                c.label("different evaluators used");
        }
        else if (op == 1)
        {
            c.note() << mutateModel(c, s.m, s.so) << "\n";
            s.co.nsites = max(1, int(s.m.sites.size()));
            scur = ref::build(s.m);
            spcur = c.flag() ? ref::build(s.m) : scur;
        }
        // masks may depend on the structure that was assigned at the time
        else if (op == 2 && k != DEBYE && !s.co.masks)
        {
            // evaluate the original or the copy separately
            bool orig = c.flag();
            Results r0;
            if (s.valid)  r0 = results(orig ? *p : *q, true);
            (orig ? *q : *p).eval(ref::build(s.m));
            if (s.valid)  compareResults("the other object", results(orig ? *p : *q, true), r0, 0, 0);
            c.note() << "eval one\n";
            s.valid = false;
            together = false;
        }
        else
        {
            Op o = genConfigOp(c, k, s.co);
            o.fn(*q);
            o.fn(*p);
            s.valid = false;
            c.note() << o.desc << "\n";
            if (c.chance(1, 3))
            {
                PQPtr t = cloneBySerialization(q);
                // queries of the Debye range may change the range used later
                configOf(*p, 0, s.co.types);
                compareState("intermediate copy", s, *q, *t);
            }
            if (together && c.chance(1, 3))
                compareConfig("after the change", configOf(*q, s.co.nsites, s.co.types),
                        configOf(*p, s.co.nsites, s.co.types), 1e-9);
        }
    }
    compareConfig("final", configOf(*q, s.co.nsites, s.co.types), configOf(*p, s.co.nsites, s.co.types), 1e-9);
    if (s.nops > 1 && ne)  c.nontrivial();
}

// archive loaded in another process ------------------------------------------

void writeResults(ostream& o, const Results& r)
{
    o << setprecision(17);
    o << "R " << r.arr.size() << "\n";
    for (auto& kv : r.arr)
    {
        o << kv.first << " " << kv.second.size();
        for (double x : kv.second)
        {
            uint64_t u;
            memcpy(&u, &x, 8);
            o << " " << u;
        }
        o << "\n";
    }
    o << r.txt.size() << "\n";
    for (auto& kv : r.txt)  o << kv.first << "\n" << kv.second.size() << " " << kv.second << "\n";
    o << r.hasbonds << " " << r.bonds.size() << "\n";
    for (const ref::Bond& b : r.bonds)
        o << b.i0 << " " << b.i1 << " " << b.d << " " << b.r01[0] << " " <<
            b.r01[1] << " " << b.r01[2] << " " << b.msd << "\n";
    o << r.bondtypes.size() << "\n";
    for (const string& s : r.bondtypes)  o << s << "\n";
}


Results readResults(istream& i)
{
    Results r;
    string s;
    size_t n;
    i >> s >> n;
    if (s != "R")  vt::fail("no results from the other process");
    while (n--)
    {
        size_t k;
        i >> s >> k;
        vector<double>& v = r.arr[s];
        while (k--)
        {
            uint64_t u;
            i >> u;
            double x;
            memcpy(&x, &u, 8);
            v.push_back(x);
        }
    }
    i >> n;
    while (n--)
    {
        size_t k;
        i >> s >> k;
        i.get();
        string t(k, ' ');
        i.read(&t[0], k);
        r.txt[s] = t;
    }
    i >> r.hasbonds >> n;
    while (n--)
    {
        ref::Bond b;
        i >> b.i0 >> b.i1 >> b.d >> b.r01[0] >> b.r01[1] >> b.r01[2] >> b.msd;
        r.bonds.push_back(b);
    }
    i >> n;
    while (n--)  { i >> s; r.bondtypes.push_back(s); }
    if (!i)  vt::fail("truncated results from the other process");
    return r;
}


// continue with a loaded or the original object
vector<Results> continued(PairQuantity& q, const Strus& strus, uint64_t seed,
        const vector<string>& types, bool valid, string* desc)
{
    vector<Results> rv;
    if (valid)  rv.push_back(results(q));
    Case c;
    c.rs = seed;
    CfgOpts co;
    co.types = types;
    Kind k = kindOf(q);
    int n = c.range(1, 5);
    for (int i = 0; i <= n; ++i)
    {
        if (i < n && c.flag())
        {
            Op o = genConfigOp(c, k, co);
            o.fn(q);
            if (desc)  *desc += o.desc + "; ";
        }
        else
        {
            size_t j = c.below(strus.size() + 1);
            if (j == strus.size())  q.eval();
            else  q.eval(strus[j]);
            rv.push_back(results(q));
            if (desc)  *desc += "eval " + vt::str(j) + "; ";
        }
    }
    return rv;
}


int helper(int argc, char** argv)
{
    if (argc != 2)  return 3;
    try
    {
        ifstream in(argv[0], ios::binary);
        diffpy::serialization::iarchive ia(in, ios::binary);
        PQPtr q;
        vector<StructureAdapterPtr> strus(3);
        uint64_t seed;
        bool valid;
        int nburn;
        vector<string> types;
        ia >> nburn;
        // some activity of the other process
        diffpy::eventticker::EventTicker t;
        for (int i = 0; i < nburn; ++i)  t.click();
        ia >> q;
        for (StructureAdapterPtr& s : strus)  ia >> s;
        ia >> seed >> valid >> types;
        map<string, string> cfg = configOf(*q, 6, types);
        vector<Results> rr = continued(*q, strus, seed, types, valid, 0);
        ofstream out(argv[1], ios::binary);
        out << cfg.size() << "\n";
        for (auto& kv : cfg)  out << kv.first.size() << " " << kv.first << kv.second.size() << " " << kv.second;
        out << "\n" << rr.size() << "\n";
        for (const Results& r : rr)  writeResults(out, r);
        return out.good() ? 0 : 4;
    }
    catch (exception& e)
    {
        ofstream out(argv[1], ios::binary);
        out << "exception " << e.what();
        return 5;
    }
}

vt::RegHelper reghelper("load", helper);

void crossprocess(Case& c, Kind k)
{
    Setup s = prepare(c, k, 5);
    Strus strus;
    ref::Model m = s.m;
    for (int i = 0; i < 3; ++i)
    {
        strus.push_back(ref::build(m));
        c.note() << mutateModel(c, m, s.so) << "\n";
    }
    uint64_t seed = c.below(1u << 30);
    int nburn = c.oneof({0, 0, 20, 1000000});
    string base = vt::scratchdir() + "/c03." + vt::str(getpid());
    string fin = base + ".in", fout = base + ".out";
    {
        ofstream out(fin, ios::binary);
        diffpy::serialization::oarchive oa(out, ios::binary);
        bool valid = s.valid;
        const PQPtr& q = s.pq;
        const int nb = nburn;
        const uint64_t sd = seed;
        const bool vl = valid;
        const vector<string> tp = s.co.types;
        oa << nb << q;
        for (const StructureAdapterPtr& x : strus)  oa << x;
        oa << sd << vl << tp;
        if (!out.good())  vt::fail("harness: cannot write " + fin);
    }
    remove(fout.c_str());
    pid_t pid = fork();
    if (pid == 0)
    {
        execl(vt::selfexe().c_str(), vt::selfexe().c_str(), "--helper", "load", fin.c_str(), fout.c_str(), (char*)0);
        _exit(9);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    map<string, string> cfg = configOf(*s.pq, 6, s.co.types);
    string desc;
    vector<Results> mine = continued(*s.pq, strus, seed, s.co.types, s.valid, &desc);
    c.note() << "-- loaded -- (" << nburn << " ticks) " << desc << "\n";
    ifstream in(fout, ios::binary);
    if (!WIFEXITED(st) || WEXITSTATUS(st))
    {
        string msg;
        getline(in, msg);
        vt::fail("loading in another process failed, status " + vt::str(st) + " " + msg);
    }
    size_t n = 0;
    in >> n;
    map<string, string> ocfg;
    while (n--)
    {
        string kv[2];
        for (string& x : kv)
        {
            size_t l = 0;
            in >> l;
            in.get();
            x.resize(l);
            in.read(&x[0], l);
        }
        ocfg[kv[0]] = kv[1];
    }
    compareConfig("other process", cfg, ocfg);
    compareConfig("other process", ocfg, cfg);
    in >> n;
    if (n != mine.size())  vt::fail("other process returned different number of results");
    Scales hist;
    for (size_t i = 0; i < n; ++i)
    {
        Results r = readResults(in);
        compareResults("other process, result " + vt::str(i), r, mine[i], 1e-10, 1e-10, &hist);
    }
    remove(fin.c_str());
    remove(fout.c_str());
    if (s.nops && n > 1)  c.nontrivial();
}


// components -----------------------------------------------------------------

void compareAttributes(const string& what, const diffpy::Attributes& a, const diffpy::Attributes& b)
{
    set<string> na, nb, wa, wb;
    for (const string& n : a.namesOfDoubleAttributes())  na.insert(n);
    for (const string& n : b.namesOfDoubleAttributes())  nb.insert(n);
    for (const string& n : a.namesOfWritableDoubleAttributes())  wa.insert(n);
    for (const string& n : b.namesOfWritableDoubleAttributes())  wb.insert(n);
    if (na != nb || wa != wb)  vt::fail(what + ": attribute names");
    for (const string& n : na)
        if (a.getDoubleAttr(n) != b.getDoubleAttr(n))
            vt::fail(what + ": attribute " + n + " " + vt::str(a.getDoubleAttr(n)) + " loaded " + vt::str(b.getDoubleAttr(n)));
}


void randomAttributes(Case& c, diffpy::Attributes& a)
{
    vector<string> names;
    for (const string& n : a.namesOfWritableDoubleAttributes())  names.push_back(n);
    sort(names.begin(), names.end());
    for (const string& n : names)
        if (c.chance(2, 3))
        {
            double v = n == "peakprecision" ? c.logreal(1e-10, 0.1) : c.real(0.01, 5);
            a.setDoubleAttr(n, v);
            c.note() << n << "=" << v << " ";
        }
}


template <class T>
boost::shared_ptr<T> component(Case& c, const char* what)
{
    vector<string> tps;
    for (const string& t : T::getRegisteredTypes())  tps.push_back(t);
    string t = c.pick(tps);
    c.note() << what << " " << t << " ";
    return T::createByType(t);
}


void same(const char* what, double x, double y)
{
    if (!(x == y || (std::isnan(x) && std::isnan(y))))
        vt::fail(string(what) + " " + vt::str(x) + " loaded " + vt::str(y));
}

void compareFn(const PeakProfile& a, const PeakProfile& b, double r, double w)
{
    same("peak profile", a(r - 5, w), b(r - 5, w));
    same("xboundlo", a.xboundlo(w), b.xboundlo(w));
    same("xboundhi", a.xboundhi(w), b.xboundhi(w));
}
void compareFn(const PeakWidthModel& a, const PeakWidthModel& b, double r, double w)
{
    static AtomicStructureAdapterPtr s;
    if (!s)
    {
        s.reset(new AtomicStructureAdapter);
        ref::Site x;
        x.type = "C";
        x.r = ref::v3(0, 0, 0);
        x.U = ref::diag(0.01);
        s->append(ref::toAtom(x));
        x.r = ref::v3(1.4, 0, 0);
        s->append(ref::toAtom(x));
    }
    (*s)[1].xyz_cartn[0] = 0.5 + r;
    BaseBondGeneratorPtr g = s->createBondGenerator();
    g->setRmax(100);
    g->selectAnchorSite(0);
    g->rewind();
    same("peak width", a.calculate(*g), b.calculate(*g));
    same("maximum width", a.maxWidth(s, 0, r), b.maxWidth(s, 0, r));
}
void compareFn(const PDFEnvelope& a, const PDFEnvelope& b, double r, double) { same("envelope", a(r), b(r)); }
void compareFn(const PDFBaseline& a, const PDFBaseline& b, double r, double) { same("baseline", a(r), b(r)); }


template <class T>
void roundtrip1(Case& c, const char* what)
{
    boost::shared_ptr<T> a = component<T>(c, what);
    randomAttributes(c, *a);
    boost::shared_ptr<T> b = cloneBySerialization(a);
    VT_CHECK(b && b != a, what);
    VT_CHECK(typeid(*a) == typeid(*b) && a->type() == b->type(), what);
    compareAttributes(what, *a, *b);
    for (int i = 0; i < 8; ++i)
    {
        double r = c.real(0, 10);
        double w = c.real(0.1, 3);
        compareFn(*a, *b, r, w);
    }
    // independent of each other and fully functional
    map<string, double> before;
    for (const string& n : a->namesOfDoubleAttributes())  before[n] = a->getDoubleAttr(n);
    randomAttributes(c, *b);
    for (auto& kv : before)
        if (a->getDoubleAttr(kv.first) != kv.second)  vt::fail(string(what) + ": loaded object shares " + kv.first);
    boost::shared_ptr<T> d = b->clone();
    compareAttributes(string(what) + " clone of the loaded", *b, *d);
    c.nontrivial();
}


void sftable(Case& c)
{
    ScatteringFactorTablePtr a = component<ScatteringFactorTable>(c, "table");
    vector<string> pool = {"C", "Na", "Cl", "Cl1-", "Na1+", "Si", "2-H", "Zr", "X", "my"};
    int n = c.below(6);
    for (int i = 0; i < n; ++i)
    {
        string s = c.pick(pool), t = pool[c.below(6)];
        double v = c.real(0.5, 9);
        try
        {
            switch (c.below(4))
            {
                case 0: a->setCustomAs(s, t); break;
                case 1: a->setCustomAs(s, t, v); break;
                case 2: a->setCustomAs(s, t, v, 1.5); break;
                default: a->resetCustom(s);
            }
            c.note() << s << ":" << t << "," << v << " ";
        }
        catch (exception&) { }
    }
    ScatteringFactorTablePtr b = cloneBySerialization(a);
    VT_CHECK(typeid(*a) == typeid(*b) && a->type() == b->type() && a->radiationType() == b->radiationType(), "table type");
    VT_CHECK(a->getCustomSymbols() == b->getCustomSymbols(), "custom symbols");
    for (const string& s : pool)
        for (double q : {0.0, 1.3, 7.0})
        {
            double x = 0, y = 0;
            int ex = 0, ey = 0;
            try { x = a->lookup(s, q); } catch (exception&) { ex = 1; }
            try { y = b->lookup(s, q); } catch (exception&) { ey = 1; }
            if (ex != ey || x != y)  vt::fail("lookup of " + s + " " + vt::str(x) + " loaded " + vt::str(y));
        }
    // a change of the loaded table is visible to its users and leaves the source alone
    diffpy::eventticker::EventTicker tk = b->ticker();
    double x = a->lookup("C", 1.0);
    b->setCustomAs("C", "C", 77);
    VT_CHECK(b->ticker() > tk, "ticker of the loaded table");
    VT_CHECK(a->lookup("C", 1.0) == x, "tables are shared");
    if (n > 1)  c.nontrivial();
}


void bvtable(Case& c)
{
    BVParametersTablePtr a(new BVParametersTable);
    int n = c.below(7);
    vector<string> pool = {"Na", "Cl", "Ti", "O", "X"};
    for (int i = 0; i < n; ++i)
    {
        string s = c.pick(pool), t = c.pick(pool);
        int v = c.range(-3, 3), w = c.range(-3, 3);
        double ro = c.real(0.5, 3), b = c.real(0.2, 0.6);
        switch (c.below(4))
        {
            case 0: a->setAtomValence(s, v); break;
            case 1: a->resetCustom(s, v, t, w); break;
            default: a->setCustom(s, v, t, w, ro, b, c.oneof<const char*>({"", "ref a"}));
        }
        c.note() << s << v << t << w << " " << ro << " " << b << "; ";
    }
    BVParametersTablePtr b = cloneBySerialization(a);
    VT_CHECK(b->getAllCustom().size() == a->getAllCustom().size(), "custom parameters");
    for (const BVParam& p : a->getAllCustom())
    {
        const BVParam& q = b->lookup(p);
        VT_CHECK(p.matom0 == q.matom0 && p.mvalence0 == q.mvalence0 && p.matom1 == q.matom1 &&
            p.mvalence1 == q.mvalence1 && p.mRo == q.mRo && p.mB == q.mB && p.mref_id == q.mref_id, "BVParam");
    }
    VT_CHECK(a->getAll().size() == b->getAll().size(), "all parameters");
    for (const string& s : pool)
    {
        VT_CHECK(a->getAtomValence(s) == b->getAtomValence(s), s);
        VT_CHECK(a->getAtomValence(s + "2+") == b->getAtomValence(s + "2+"), s);
        for (const string& t : pool)
            VT_CHECK(a->lookup(s + "1+", t + "1-").mRo == b->lookup(s + "1+", t + "1-").mRo, s);
    }
    if (n > 1)  c.nontrivial();
}


void radii(Case& c)
{
    AtomRadiiTablePtr a = component<AtomRadiiTable>(c, "radii");
    int n = c.below(5);
    vector<string> pool = {"Na", "Cl", "C", "O2-", "X"};
    for (int i = 0; i < n; ++i)
    {
        string s = c.pick(pool);
        double v = c.real(0, 3);
        a->setCustom(s, v);
        c.note() << s << ":" << v << " ";
    }
    AtomRadiiTablePtr b = cloneBySerialization(a);
    VT_CHECK(typeid(*a) == typeid(*b) && a->type() == b->type(), "radii table type");
    VT_CHECK(a->getAllCustom() == b->getAllCustom(), "custom radii");
    for (const string& s : pool)
        VT_CHECK(a->lookup(s) == b->lookup(s), "radius of " << s << " " << a->lookup(s) << " loaded " << b->lookup(s));
    if (n)  c.nontrivial();
}


void lattice(Case& c)
{
    double par[6];
    GenOpts o;
    genLatPar(c, par, o);
    Lattice a(par[0], par[1], par[2], par[3], par[4], par[5]);
    if (c.flag())
    {
        ref::M3 R = ref::mul(ref::baseFromPar(par), genRotation(c));
        a.setLatBase(ref::toR3(ref::v3(R[0][0], R[0][1], R[0][2])), ref::toR3(ref::v3(R[1][0], R[1][1], R[1][2])), ref::toR3(ref::v3(R[2][0], R[2][1], R[2][2])));
        c.label("rotated base");
    }
    boost::shared_ptr<Lattice> pa(new Lattice(a)), pb = cloneBySerialization(pa);
    const Lattice& b = *pb;
    VT_CHECK(a.a() == b.a() && a.b() == b.b() && a.c() == b.c() && a.alpha() == b.alpha() && a.beta() == b.beta() && a.gamma() == b.gamma(), "cell");
    VT_CHECK(a.volume() == b.volume() && a.ar() == b.ar() && a.alphar() == b.alphar() && a.cosgamma() == b.cosgamma() && a.sinbetar() == b.sinbetar(), "derived");
    VT_CHECK(a == b && !(a != b), "equality");
    for (int i = 0; i < 3; ++i)
    {
        R3::Vector v = ref::toR3(10 * genUnitVector(c));
        VT_CHECK(ref::fromR3(R3::Vector(a.cartesian(v))) == ref::fromR3(R3::Vector(b.cartesian(v))), "cartesian");
        VT_CHECK(ref::fromR3(R3::Vector(a.fractional(v))) == ref::fromR3(R3::Vector(b.fractional(v))), "fractional");
        VT_CHECK(ref::fromR3(R3::Vector(a.ucvCartesian(v))) == ref::fromR3(R3::Vector(b.ucvCartesian(v))), "ucv");
    }
    c.nontrivial();
}


vector<ref::Bond> bondsOf(StructureAdapterPtr s, double rmax)
{
    vector<ref::Bond> rv;
    BaseBondGeneratorPtr g = s->createBondGenerator();
    g->setRmax(rmax);
    for (int i = 0; i < s->countSites(); ++i)
    {
        g->selectAnchorSite(i);
        for (g->rewind(); !g->finished(); g->next())
        {
            ref::Bond b;
            b.i0 = g->site0();
            b.i1 = g->site1();
            b.d = g->distance();
            b.r01 = ref::fromR3(R3::Vector(g->r01()));
            b.msd = g->msd();
            rv.push_back(b);
        }
    }
    return rv;
}


void structure(Case& c)
{
    GenOpts so;
    so.maxcell = 24;
    ref::Model m = genModel(c, so);
    c.note() << m.str();
    StructureAdapterPtr a = ref::build(m);
    int w = c.below(4);
    if (auto x = boost::dynamic_pointer_cast<CrystalStructureAdapter>(a))
        if (c.flag())  x->setSymmetryPrecision(c.oneof({1e-3, 1e-4, 0.01}));
    StructureAdapterPtr inner = a;
    if (w == 1)  a = nometa(a);
    if (w == 2)  a = nosymmetry(a);
    if (w == 3)  a = nometa(nosymmetry(a));
    if (c.flag())  bondsOf(a, 2.0);     // fill any caches
    StructureAdapterPtr b = cloneBySerialization(a);
    VT_CHECK(b && b != a && typeid(*a) == typeid(*b), "structure type");
    auto compare = [&]() {
        VT_CHECK(a->countSites() == b->countSites(), "countSites");
        VT_CHECK(a->totalOccupancy() == b->totalOccupancy(), "totalOccupancy");
        VT_CHECK(a->numberDensity() == b->numberDensity(), "numberDensity");
        for (int i = 0; i < a->countSites(); ++i)
        {
            VT_CHECK(a->siteAtomType(i) == b->siteAtomType(i), i);
            VT_CHECK(ref::fromR3(a->siteCartesianPosition(i)) == ref::fromR3(b->siteCartesianPosition(i)), i);
            VT_CHECK(ref::fromR3(a->siteCartesianUij(i)) == ref::fromR3(b->siteCartesianUij(i)), i);
            VT_CHECK(a->siteOccupancy(i) == b->siteOccupancy(i), i);
            VT_CHECK(a->siteAnisotropy(i) == b->siteAnisotropy(i), i);
            VT_CHECK(a->siteMultiplicity(i) == b->siteMultiplicity(i), i);
        }
        ref::compareBonds("loaded structure", bondsOf(b, 4.00731), bondsOf(a, 4.00731), true, 1e-10);
        StructureDifference d = a->diff(b);
        if (!d.pop0.empty() || !d.add1.empty())  c.label("difference is not empty");
    };
    compare();
    if (w == 0)
    {
        AtomicStructureAdapterPtr x = boost::dynamic_pointer_cast<AtomicStructureAdapter>(a), y = boost::dynamic_pointer_cast<AtomicStructureAdapter>(b);
        auto px = boost::dynamic_pointer_cast<PeriodicStructureAdapter>(a), py = boost::dynamic_pointer_cast<PeriodicStructureAdapter>(b);
        auto cx = boost::dynamic_pointer_cast<CrystalStructureAdapter>(a), cy = boost::dynamic_pointer_cast<CrystalStructureAdapter>(b);
        VT_CHECK(bool(cx) == bool(cy) && bool(px) == bool(py), "class");
        if (cx)
        {
            VT_CHECK(*cx == *cy, "crystals are equal");
            VT_CHECK(cx->getSymmetryPrecision() == cy->getSymmetryPrecision(), "symmetry precision");
            VT_CHECK(cx->countSymOps() == cy->countSymOps(), "operations");
        }
        else if (px)  VT_CHECK(*px == *py, "periodic structures are equal");
        else  VT_CHECK(*x == *y, "structures are equal");
        // the same edit of both
        for (int k = 0; k < 2; ++k)
        {
            c.note() << mutateModel(c, m, so) << "; ";
            if (!editInPlace(a, m))  continue;
            // the copy is not affected by the edits of the source
            if (!editInPlace(b, m))  vt::fail("edit of the loaded structure");
            compare();
        }
    }
    if (m.sites.size() > 1)  c.nontrivial();
}

}   // namespace

VT_PROP(pdf, "two or more configuration changes before copying and an evaluation after", 6000*4, 60000*4) { inprocess(c, PDF); }
VT_PROP(debye, "two or more configuration changes before copying and an evaluation after", 5000*4, 40000*4) { inprocess(c, DEBYE); }
VT_PROP(bond, "two or more configuration changes before copying and an evaluation after", 6000*4, 60000*4) { inprocess(c, BOND); }
VT_PROP(bvs, "two or more configuration changes before copying and an evaluation after", 6000*4, 60000*4) { inprocess(c, BVS); }
VT_PROP(overlap, "two or more configuration changes before copying and an evaluation after", 6000*4, 60000*4) { inprocess(c, OVERLAP); }
VT_PROP(process, "archive with at least one configuration change loaded by another process and two or more compared results", 2500*4, 30000*4)
{
    static const Kind kk[] = {PDF, DEBYE, BOND, BVS, OVERLAP};
    crossprocess(c, kk[c.below(5)]);
}
VT_PROP(components, "every case", 8000, 100000)
{
    switch (c.below(4))
    {
        case 0: roundtrip1<PeakProfile>(c, "profile"); break;
        case 1: roundtrip1<PeakWidthModel>(c, "width model"); break;
        case 2: roundtrip1<PDFEnvelope>(c, "envelope"); break;
        default: roundtrip1<PDFBaseline>(c, "baseline");
    }
}
VT_PROP(tables, "two or more custom settings", 8000, 100000)
{
    switch (c.below(3))
    {
        case 0: sftable(c); break;
        case 1: bvtable(c); break;
        default: radii(c);
    }
}
VT_PROP(lattices, "every case", 4000, 100000) { lattice(c); }
VT_PROP(structures, "two or more sites", 8000, 150000) { structure(c); }
