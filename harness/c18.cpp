// C18 Scattering factor lookups follow standard data and custom overrides
#include "calc.hpp"
#include "bvref.hpp"
#include <diffpy/srreal/ScatteringFactorTable.hpp>
#include <diffpy/srreal/scatteringfactordata.hpp>
#include <cfloat>

using namespace std;
using namespace diffpy::srreal;

namespace {

string datafile(const string& f)
{
    const char* dir = getenv("DIFFPYRUNTIME");
    return string(dir ? dir : "/repo/src/runtime") + "/" + f;
}

vector<string> split(const string& s, char sep)
{
    vector<string> rv(1);
    for (char x : s)
    {
        if (x == sep)  rv.push_back("");
        else  rv.back() += x;
    }
    return rv;
}

struct WK { double a[5], b[5], c; };

struct Data
{
    map<string,WK> xray;
    map<string,int> z;          // elements
    map<string,int> en;         // elements and ions
    map<string,double> bc;
    vector<string> elements;
    vector<pair<string,int> > ions;     // element and charge
    vector<pair<string,string> > isotopes;  // mass number and element

    Data()
    {
        ifstream fx(datafile("f0_WaasKirf.dat"));
        string line, sym;
        while (getline(fx, line))
        {
            if (line.compare(0, 2, "#S") == 0)
            {
                istringstream f(line.substr(2));
                int n;
                f >> n >> sym;
            }
            else if (!line.empty() && line[0] != '#' && !sym.empty())
            {
                istringstream f(line);
                WK w;
                for (double& x : w.a)  f >> x;
                f >> w.c;
                for (double& x : w.b)  f >> x;
                if (!f)  vt::fail("cannot parse X-ray data for " + sym);
                if (xray.count(sym))  vt::fail("duplicate X-ray data");
                xray[sym] = w;
                sym.clear();
            }
        }
        ifstream fi(datafile("ionlist.dat"));
        while (getline(fi, line))
        {
            istringstream f(line);
            string el;
            int zz, v;
            if (!(f >> el) || el[0] == '#')  continue;
            f >> zz;
            z[el] = en[el] = zz;
            elements.push_back(el);
            while (f >> v)
            {
                ions.push_back(make_pair(el, v));
                en[el + vt::str(abs(v)) + (v > 0 ? "+" : "-")] = zz - v;
            }
        }
        ifstream fn(datafile("nsftable.dat"));
        map<string,double> iso100, isoY;
        while (getline(fn, line))
        {
            if (line.empty() || line[0] == '#')  continue;
            vector<string> w = split(line, ',');
            if (w.size() < 4 || w[3].empty())  continue;
            vector<string> id = split(w[0], '-');
            double b = strtod(w[3].c_str(), 0);
            if (id.size() == 2)  bc[id[1]] = b;
            else
            {
                bc[id.at(2) + "-" + id[1]] = b;
                isotopes.push_back(make_pair(id[2], id[1]));
                if (w[1] == "100")  iso100[id[1]] = b;
                else if (w[1].size() && w[1][w[1].size() - 1] == 'Y')  isoY.insert(make_pair(id[1], b));
            }
        }
        for (auto& kv : iso100)  bc.insert(kv);
        for (auto& kv : isoY)  bc.insert(kv);
        bc["n"] = bc.at("1-n");
        bc["D"] = bc.at("2-H");
        bc["T"] = bc.at("3-H");
        if (xray.size() < 200 || z.size() < 90 || bc.size() < 300)  vt::fail("incomplete data files");
    }
};

const Data& data()
{
    static Data rv;
    return rv;
}

double fx(const WK& w, double q)
{
    double s = q / (4 * M_PI), rv = w.c;
    for (int i = 0; i < 5; ++i)  rv += w.a[i] * exp(-w.b[i] * s * s);
    return rv;
}

struct Symbol
{
    string pre, iso, bare, chg, post;
    int v = 0;
    bool blank = false;
    string str() const { return pre + iso + bare + chg + post; }
    string canonical() const
    {
        return v ? bare + char('0' + abs(v)) + (v > 0 ? "+" : "-") : bare;
    }
};

Symbol genSymbol(Case& c)
{
    const Data& d = data();
    Symbol s;
    switch (c.below(8))
    {
        case 0:
        case 1:
            s.bare = c.pick(d.elements);
            break;
        case 2:
        case 3:
        {
            auto& i = c.pick(d.ions);
            s.bare = i.first;
            s.v = i.second;
            break;
        }
        case 4:
        {
            auto& i = c.pick(d.isotopes);
            s.iso = i.first + "-";
            s.bare = i.second;
            break;
        }
        case 5:
        {
            vector<string> keys;
            for (auto& kv : d.xray)  keys.push_back(kv.first);
            string k = c.pick(keys);
            size_t p = k.find_first_of("12345678");
            s.bare = k.substr(0, p);
            if (p != string::npos)  s.v = (k[p] - '0') * (k[p + 1] == '+' ? 1 : -1);
            break;
        }
        case 6:
            s.bare = c.oneof<const char*>({"D", "T", "n", "X", "Cval", "Siva", "Uuo", "Ccustom", "zr", "NA"});
            break;
        default:
        {
            // different letter case
            s.bare = c.pick(d.elements);
            if (s.bare.size() > 1 && c.flag())  s.bare[1] = toupper(s.bare[1]);
            else  s.bare[0] = tolower(s.bare[0]);
            break;
        }
    }
    if (c.chance(1, 6))  s.v = c.range(-8, 8);
    if (c.chance(1, 6))  s.iso = vt::str(c.range(1, 240)) + "-";
    if (s.v)
    {
        if (abs(s.v) > 1 || c.flag())  s.chg = string(1, '0' + abs(s.v));
        s.chg += s.v > 0 ? "+" : "-";
    }
    else if (c.chance(1, 8))  s.chg = c.flag() ? "0+" : "0-";
    if (c.chance(1, 10))  s.post = c.flag() ? " " : "\t";
    if (c.chance(1, 20))  s.pre = " ";
    return s;
}

// standard value, false if unknown
bool standardValue(const string& tp, const Symbol& s, double q, double& rv, bool& skip)
{
    const Data& d = data();
    skip = false;
    if (tp == "xray" || tp == "electron")
    {
        auto it = d.xray.find(s.str());
        if (it == d.xray.end())  it = d.xray.find(s.canonical());
        if (it == d.xray.end())  return false;
        rv = fx(it->second, q);
        if (tp == "xray")  return true;
        double st = q / (4 * M_PI);
        if (st == 0)  { rv = DBL_MAX; return true; }
        if (st < 1e-4)  { skip = true; return true; }
        // number of electrons
        double z = floor(fx(it->second, 0) + 0.5);
        if (s.v == 0 && d.z.count(s.bare) && d.z.at(s.bare) != z)
            vt::fail("electron count of " + s.bare);
        if (s.v && d.z.count(s.bare) && d.z.at(s.bare) - s.v != z)
            vt::fail("electron count of ion " + s.canonical());
        rv = 0.023934 * (z - rv) / (st * st);
        return true;
    }
    if (tp == "electronnumber")
    {
        auto it = d.en.find(s.canonical());
        if (it == d.en.end())  return false;
        rv = it->second;
        return true;
    }
    // neutrons, charge has no effect
    skip = !s.pre.empty();
    auto it = d.bc.find(s.iso + s.bare);
    if (it == d.bc.end())  return false;
    rv = it->second;
    return true;
}

double tolerance(const string& tp, double q, double rv)
{
    if (tp == "neutron" || tp == "electronnumber")  return 1e-15 * fabs(rv);
    double st = q / (4 * M_PI);
    if (tp == "xray")  return 1e-12 * (1 + fabs(rv));
    return st > 0 ? 1e-12 / (st * st) + 1e-12 * fabs(rv) : 0;
}

void checkStandard(Case& c, const string& tp, const Symbol& s, double q,
        const function<double(const string&, double)>& f, const string& what, bool& found)
{
    double e = 0;
    bool skip;
    bool known = standardValue(tp, s, q, e, skip);
    if (skip)  return;
    found = known;
    if (!known)
    {
        VT_THROWS(f(s.str(), q), invalid_argument, what << " of unknown '" << s.str() << "'");
        return;
    }
    double g;
    try { g = f(s.str(), q); }
    catch (std::exception& x) { vt::fail(what + " of '" + s.str() + "' failed: " + x.what()); throw; }
    if (!(fabs(g - e) <= tolerance(tp, q, e)))
        vt::fail(what + " of '" + s.str() + "' at " + vt::str(q) + " is " + vt::str(g) + ", expected " + vt::str(e));
}

const vector<string> TYPES = {"xray", "neutron", "electron", "electronnumber"};
const map<string,string> RADIATION = {{"xray", "X"}, {"neutron", "N"}, {"electron", "E"}, {"electronnumber", "EN"}};

double genQ(Case& c)
{
    switch (c.below(4))
    {
        case 0: return 0.0;
        case 1: return c.range(1, 250) * 0.1;
        case 2: return c.logreal(0.01, 100);
        default: return c.real(0.0, 30);
    }
}

}   // namespace


// every record of data files
VT_PROP(alldata, "all symbols of all tables", 1, 1)
{
    bool found;
    size_t n = 0;
    for (const string& tp : TYPES)
    {
        ScatteringFactorTablePtr t = ScatteringFactorTable::createByType(tp);
        auto f = [&](const string& s, double q) { return t->lookup(s, q); };
        vector<Symbol> ss;
        for (auto& e : data().elements)  { Symbol s; s.bare = e; ss.push_back(s); }
        for (auto& e : data().ions)
        {
            Symbol s;
            s.bare = e.first, s.v = e.second;
            s.chg = vt::str(abs(s.v)) + (s.v > 0 ? "+" : "-");
            ss.push_back(s);
            if (abs(s.v) == 1)  { s.chg = s.v > 0 ? "+" : "-"; ss.push_back(s); }
        }
        for (auto& e : data().isotopes)  { Symbol s; s.iso = e.first + "-", s.bare = e.second; ss.push_back(s); }
        for (const char* e : {"D", "T", "n", "Cval", "Siva", ""})  { Symbol s; s.bare = e; ss.push_back(s); }
        for (auto& kv : data().xray)
        {
            Symbol s;
            size_t p = kv.first.find_first_of("12345678");
            s.bare = kv.first.substr(0, p);
            if (p != string::npos)
            {
                s.chg = kv.first.substr(p);
                s.v = (kv.first[p] - '0') * (kv.first[p + 1] == '+' ? 1 : -1);
            }
            ss.push_back(s);
        }
        for (auto& s : ss)
            for (double q : {0.0, 0.7, 3.0, 12.5, 30.0})
            {
                checkStandard(c, tp, s, q, f, tp + " lookup", found);
                ++n;
            }
    }
    VT_CHECK(n > 5000, "number of lookups");
    c.nontrivial();
}


VT_PROP(standard, "the symbol is known and has a charge, isotope number or blanks", 400000, 6000000)
{
    Symbol s = genSymbol(c);
    double q = genQ(c);
    c.note() << "'" << s.str() << "' Q " << setprecision(17) << q;
    bool any = false, found = false;
    for (const string& tp : TYPES)
    {
        ScatteringFactorTablePtr t = ScatteringFactorTable::createByType(c.flag() ? tp : RADIATION.at(tp));
        VT_CHECK(t->type() == tp && t->radiationType() == RADIATION.at(tp), "table type");
        checkStandard(c, tp, s, q, [&](const string& x, double y) { return t->lookup(x, y); }, tp + " lookup", found);
        any = any || found;
        checkStandard(c, tp, s, q, [&](const string& x, double y) { return t->standardLookup(x, y); },
                tp + " standardLookup", found);
        if (q == 0)
            checkStandard(c, tp, s, q, [&](const string& x, double) { return t->lookup(x); }, tp + " lookup at 0", found);
    }
    // functions
    checkStandard(c, "xray", s, q, fxrayatq, "fxrayatq", found);
    checkStandard(c, "xray", s, q, [](const string& x, double y) { return fxrayatstol(x, y / (4 * M_PI)); }, "fxrayatstol", found);
    checkStandard(c, "electron", s, q, felectronatq, "felectronatq", found);
    checkStandard(c, "electronnumber", s, q, [](const string& x, double) { return double(electronnumber(x)); }, "electronnumber", found);
    checkStandard(c, "neutron", s, q, [](const string& x, double) { return bcneutron(x); }, "bcneutron", found);
    c.label(any ? "known" : "unknown");
    if (any && s.str() != s.bare)  c.nontrivial();
}


// histories of custom values
VT_PROP(custom, "at least 3 effective changes and a lookup of a scaled and an aliased symbol", 60000, 1200000)
{
    const string tp = c.pick(TYPES);
    struct Entry { Symbol src; double scale; };
    struct T { ScatteringFactorTablePtr t; map<string,Entry> m; };
    vector<T> ts(1);
    ts[0].t = ScatteringFactorTable::createByType(tp);
    vector<Symbol> syms;
    int ns = c.range(2, 5);
    for (int i = 0; i < ns; ++i)  syms.push_back(genSymbol(c));
    {
        Symbol s;
        s.bare = "X1x";
        syms.push_back(s);
    }
    c.note() << tp << "\n";
    int nch = 0;
    bool scaled = false, aliased = false;
    int n = c.range(2, 12);
    for (int st = 0; st < n; ++st)
    {
        int i = c.below(ts.size());
        T& x = ts[i];
        Symbol s = c.pick(syms), src = c.flag() ? s : c.pick(syms);
        double q = genQ(c);
        diffpy::eventticker::EventTicker before = x.t->ticker();
        bool changed = false;
        switch (c.below(7))
        {
            case 0:
            case 1:
            {
                double v = c.oneof({1.0, 2.5, -3.0, 0.0, 12.3});
                double e;
                bool skip;
                bool known = standardValue(tp, src, q, e, skip);
                if (skip)  break;
                bool atq = q != 0 || c.flag();
                c.note() << i << " setCustomAs '" << s.str() << "' '" << src.str() << "' " << v << " " << q << "\n";
                if (!known)
                {
                    if (atq)  VT_THROWS(x.t->setCustomAs(s.str(), src.str(), v, q), invalid_argument, src.str());
                    else  VT_THROWS(x.t->setCustomAs(s.str(), src.str(), v), invalid_argument, src.str());
                    VT_CHECK(x.t->ticker() == before, "ticker after rejected setting");
                    break;
                }
                if (fabs(e) < 1e-3)  break;
                if (atq)  x.t->setCustomAs(s.str(), src.str(), v, q);
                else  x.t->setCustomAs(s.str(), src.str(), v);
                changed = !x.m.count(s.str()) || x.m[s.str()].src.str() != src.str() ||
                    fabs(x.m[s.str()].scale - v / e) > 1e-6 * fabs(v / e);
                x.m[s.str()] = {src, v / e};
                double g = x.t->lookup(s.str(), q);
                vt::checkClose("value that was set", g, v, 1e-10, 1e-12);
                break;
            }
            case 2:
                c.note() << i << " setCustomAs '" << s.str() << "' '" << src.str() << "'\n";
                x.t->setCustomAs(s.str(), src.str());
                changed = !x.m.count(s.str()) || x.m[s.str()].src.str() != src.str() ||
                    fabs(x.m[s.str()].scale - 1) > 1e-6;
                x.m[s.str()] = {src, 1.0};
                break;
            case 3:
                c.note() << i << " resetCustom '" << s.str() << "'\n";
                x.t->resetCustom(s.str());
                changed = x.m.erase(s.str());
                break;
            case 4:
                if (c.flag())  break;
                c.note() << i << " resetAll\n";
                x.t->resetAll();
                changed = !x.m.empty();
                x.m.clear();
                break;
            case 5:
            {
                T y;
                y.m = x.m;
                if (c.flag())  y.t = x.t->clone();
                else  y.t = cloneBySerialization(x.t);
                VT_CHECK(y.t->type() == tp, "type of the copy");
                VT_CHECK(y.t->ticker() == x.t->ticker(), "ticker of the copy");
                c.note() << i << " copied as " << ts.size() << "\n";
                if (ts.size() < 4)  ts.push_back(y);
                break;
            }
            default:
            {
                ScatteringFactorTablePtr f = x.t->create();
                VT_CHECK(f->getCustomSymbols().empty() && f->type() == tp, "created table");
            }
        }
        if (changed)
        {
            ++nch;
            VT_CHECK(before < ts[i].t->ticker(), "change is not visible to calculators");
        }
        for (size_t j = 0; j < ts.size(); ++j)
        {
            const T& y = ts[j];
            set<string> e;
            for (auto& kv : y.m)  e.insert(kv.first);
            auto us = y.t->getCustomSymbols();
            VT_CHECK(set<string>(us.begin(), us.end()) == e, "custom symbols of table " << j);
            double q1 = genQ(c);
            for (auto& z : syms)
            {
                bool found;
                checkStandard(c, tp, z, q1, [&](const string& a, double b) { return y.t->standardLookup(a, b); },
                        "standard value in table " + vt::str(j), found);
                auto it = y.m.find(z.str());
                if (it == y.m.end())
                {
                    checkStandard(c, tp, z, q1, [&](const string& a, double b) { return y.t->lookup(a, b); },
                            "table " + vt::str(j), found);
                    continue;
                }
                double v;
                bool skip;
                bool known = standardValue(tp, it->second.src, q1, v, skip);
                if (skip)  continue;
                if (!known)
                {
                    VT_THROWS(y.t->lookup(z.str(), q1), invalid_argument, z.str());
                    continue;
                }
                double g = y.t->lookup(z.str(), q1), ee = v * it->second.scale;
                double tol = fabs(it->second.scale) * tolerance(tp, q1, v) * 10 + 1e-10 * fabs(ee);
                if (v == DBL_MAX)  { VT_CHECK(fabs(g - ee) <= 1e-10 * fabs(ee) || g == ee, "value at Q 0"); continue; }
                if (!(fabs(g - ee) <= tol))
                    vt::fail("table " + vt::str(j) + ": custom value of '" + z.str() + "' is " +
                            vt::str(g) + ", expected " + vt::str(ee));
                if (it->second.scale != 1)  scaled = true;
                if (it->second.src.str() != z.str())  aliased = true;
            }
        }
    }
    c.label(tp);
    if (nch >= 3 && scaled && aliased)  c.nontrivial();
}


// changes are visible to calculators that use the table
VT_PROP(dependents, "the changed factor alters the result", 6000, 120000)
{
    using namespace calc;
    Kind k = c.flag() ? PDF : DEBYE;
    PQPtr q = make(k);
    if (c.flag())  q->setEvaluatorType(c.flag() ? OPTIMIZED : BASIC);
    GenOpts so = structureOpts(k);
    so.minsites = 2;
    so.maxsites = 4;
    so.maxcell = 8;
    so.types = {"C", "O", "Na", "Cl"};
    ref::Model m = genModel(c, so);
    StructureAdapterPtr stru = ref::build(m);
    q->setRmax(4);
    q->setDoubleAttr("qmax", 10);
    string tp = c.oneof<const char*>({"X", "N", "EN"});
    auto owner = [](PQPtr p) -> ScatteringFactorTableOwner& { return dynamic_cast<ScatteringFactorTableOwner&>(*p); };
    owner(q).setScatteringFactorTableByType(tp);
    VT_CHECK(owner(q).getRadiationType() == tp, "radiation type");
    q->eval(stru);
    c.note() << kindnames[k] << " " << tp << " " << m.str() << "\n";
    vector<function<void(ScatteringFactorTable&)> > hist;
    int n = c.range(1, 5);
    bool useful = false;
    for (int i = 0; i < n; ++i)
    {
        string s = c.pick(so.types), src = c.pick(so.types);
        double v = c.oneof({2.0, 5.0, 11.0});
        int op = c.below(4);
        function<void(ScatteringFactorTable&)> f;
        if (op == 0)  f = [=](ScatteringFactorTable& t) { t.setCustomAs(s, src, v, 1.0); };
        if (op == 1)  f = [=](ScatteringFactorTable& t) { t.setCustomAs(s, src); };
        if (op == 2)  f = [=](ScatteringFactorTable& t) { t.resetCustom(s); };
        if (op == 3)  f = [=](ScatteringFactorTable& t) { t.resetAll(); };
        c.note() << op << " " << s << " " << src << " " << v << "\n";
        QuantityType before = q->value();
        if (c.chance(1, 4))
        {
            // custom settings in a cloned table
            ScatteringFactorTablePtr t = owner(q).getScatteringFactorTable()->clone();
            f(*t);
            owner(q).setScatteringFactorTable(t);
        }
        else  f(*owner(q).getScatteringFactorTable());
        hist.push_back(f);
        if (c.flag())  q->eval();
        else  q->eval(stru);
        PQPtr g = make(k);
        g->setEvaluatorType(BASIC);
        g->setRmax(4);
        g->setDoubleAttr("qmax", 10);
        ScatteringFactorTablePtr t = ScatteringFactorTable::createByType(tp);
        for (auto& h : hist)  h(*t);
        owner(g).setScatteringFactorTable(t);
        g->eval(stru);
        Results a = results(*q, true), b = results(*g, true);
        compareResults("calculator", a, b, 1e-9, 1e-10);
        if (q->value() != before)  useful = true;
    }
    if (useful)  c.nontrivial();
}
