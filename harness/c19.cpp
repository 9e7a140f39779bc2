// C19 Radius and bond-valence parameter tables behave as overriding maps
#include "bvref.hpp"
#include <diffpy/srreal/AtomRadiiTable.hpp>
#include <diffpy/srreal/AtomUtils.hpp>
#include <diffpy/srreal/BVParam.hpp>
#include <diffpy/srreal/ConstantRadiiTable.hpp>

using namespace std;
using namespace diffpy::srreal;
using bvref::Ion;
using bvref::Key;
using bvref::Par;

// atomic radii ---------------------------------------------------------------

namespace {

string blanks(Case& c)
{
    return c.chance(1, 3) ? c.oneof<const char*>({" ", "\t", "  ", "\n", " \t "}) : "";
}

double genRadius(Case& c)
{
    switch (c.below(6))
    {
        case 0:  return c.range(0, 40) * 0.1;
        case 1:  return c.real(0, 3);
        case 2:  return c.logreal(1e-12, 1e12);
        case 3:  return 1.0 / c.range(3, 30);
        case 4:  return -c.real(0, 2);
        default: return c.range(0, 2000000) * 1e-6;
    }
}

struct Radii
{
    map<string,double> custom;
    double def = 0;
    double lookup(const string& s) const
    {
        auto it = custom.find(s);
        return it == custom.end() ? def : it->second;
    }
};

void checkRadii(const string& what, const AtomRadiiTable& t, const Radii& m, const vector<string>& syms)
{
    for (const string& s : syms)
    {
        double g = t.lookup(s);
        if (g != m.lookup(s))
            vt::fail(what + ": radius of " + s + " is " + vt::str(g) + ", expected " + vt::str(m.lookup(s)));
        if (t.standardLookup(s) != m.def)  vt::fail(what + ": standard radius of " + s);
    }
    map<string,double> all(t.getAllCustom().begin(), t.getAllCustom().end());
    if (all != m.custom)  vt::fail(what + ": getAllCustom is different");
}

}   // namespace


VT_PROP(radii, "at least 3 changes of 2 different radii and a text round trip", 200000, 3000000)
{
    vector<string> syms = {"C", "O", "O2-", "Na1+", "X", "Zz99", "C1"};
    struct T { boost::shared_ptr<ConstantRadiiTable> t; Radii m; };
    vector<T> ts(1);
    ts[0].t = boost::make_shared<ConstantRadiiTable>();
    int nch = 0;
    bool text = false;
    set<string> touched;
    int n = c.range(2, 14);
    for (int st = 0; st < n; ++st)
    {
        int i = c.below(ts.size());
        T& x = ts[i];
        string s = c.pick(syms);
        switch (c.below(11))
        {
            case 0:
            case 1:
            {
                double v = genRadius(c);
                c.note() << i << " setCustom " << s << " " << setprecision(17) << v << "\n";
                x.t->setCustom(s, v);
                x.m.custom[s] = v;
                touched.insert(s);
                ++nch;
                break;
            }
            case 2:
                c.note() << i << " resetCustom " << s << "\n";
                x.t->resetCustom(s);
                x.m.custom.erase(s);
                ++nch;
                break;
            case 3:
                if (c.flag())  break;
                c.note() << i << " resetAll\n";
                x.t->resetAll();
                x.m.custom.clear();
                break;
            case 4:
                x.m.def = genRadius(c);
                c.note() << i << " setDefault " << x.m.def << "\n";
                x.t->setDefault(x.m.def);
                VT_CHECK(x.t->getDefault() == x.m.def, "default radius");
                break;
            case 5:
            case 6:
            {
                // text with radii
                ostringstream o;
                map<string,double> d;
                int k = c.range(0, 4);
                for (int j = 0; j < k; ++j)
                {
                    string a = c.pick(syms);
                    ostringstream num;
                    num << setprecision(c.oneof({17, 6, 3})) << genRadius(c);
                    if (c.chance(1, 5))  { num.str(""); num << c.oneof<const char*>({"1e0", "+2.5", ".5", "3.", "-1E-1"}); }
                    if (j)  o << ',';
                    o << blanks(c) << a << blanks(c) << ':' << blanks(c) << num.str() << blanks(c);
                    d[a] = strtod(num.str().c_str(), 0);
                }
                c.note() << i << " fromString '" << o.str() << "'\n";
                x.t->fromString(o.str());
                for (auto& kv : d)  x.m.custom[kv.first] = kv.second, touched.insert(kv.first);
                if (k)  ++nch;
                break;
            }
            case 7:
            {
                // malformed text changes nothing
                vector<string> w;
                int k = c.range(0, 3);
                for (int j = 0; j < k; ++j)  w.push_back(c.pick(syms) + ":1.5");
                string bad = c.oneof<const char*>({"C", "C:", "C:x", "C:1.5x", "C=2", "C:1:2", "C:--1", "1.5", "C:,", "C:1.5;"});
                w.insert(w.begin() + c.below(w.size() + 1), bad);
                string txt;
                for (size_t j = 0; j < w.size(); ++j)  txt += (j ? "," : "") + w[j];
                c.note() << i << " fromString '" << txt << "'\n";
                VT_THROWS(x.t->fromString(txt), invalid_argument, txt);
                c.label("malformed text");
                break;
            }
            case 8:
            {
                string sep = c.oneof<const char*>({",", ", ", ",\t", " , "});
                string txt = (sep == "," && c.flag()) ? x.t->toString() : x.t->toString(sep);
                ConstantRadiiTable u;
                u.setDefault(x.m.def);
                if (c.flag())  u.setCustom("C", 33), u.resetAll();
                u.fromString(txt);
                checkRadii("parsed from '" + txt + "'", u, x.m, syms);
                if (x.m.custom.size() > 1)  text = true;
                c.label("text round trip");
                break;
            }
            case 9:
            {
                T y;
                y.m = x.m;
                int how = c.below(3);
                if (how == 0)  y.t = boost::dynamic_pointer_cast<ConstantRadiiTable>(x.t->clone());
                else if (how == 1)  y.t = boost::make_shared<ConstantRadiiTable>(*x.t);
                else  y.t = boost::dynamic_pointer_cast<ConstantRadiiTable>(
                        cloneBySerialization(AtomRadiiTablePtr(x.t)));
                c.note() << i << " copied as " << ts.size() << "\n";
                if (ts.size() < 4)  ts.push_back(y);
                break;
            }
            default:
            {
                AtomRadiiTablePtr f = x.t->create();
                Radii e;
                checkRadii("created", *f, e, syms);
            }
        }
        for (size_t j = 0; j < ts.size(); ++j)
            checkRadii("table " + vt::str(j), *ts[j].t, ts[j].m, syms);
    }
    if (nch >= 3 && touched.size() >= 2 && text)  c.nontrivial();
}

// bond valence parameters ----------------------------------------------------

namespace {

void checkPar(const string& what, const BVParam& g, const Par* e, const Ion& a, const Ion& b)
{
    if (!e)
    {
        if (&g != &BVParametersTable::none())
            vt::fail(what + ": expected no parameters, got Ro " + vt::str(g.mRo));
        return;
    }
    if (&g == &BVParametersTable::none())  vt::fail(what + ": parameters not found, expected Ro " + vt::str(e->ro));
    if (g.mRo != e->ro || g.mB != e->b || g.mref_id != e->id)
        vt::fail(what + ": got " + vt::str(g.mRo) + " " + vt::str(g.mB) + " '" + g.mref_id +
                "', expected " + vt::str(e->ro) + " " + vt::str(e->b) + " '" + e->id + "'");
    set<string> ga = {g.matom0, g.matom1}, ea = {a.first, b.first};
    if (ga != ea)  vt::fail(what + ": parameters for different atoms");
}

void checkLookup(const string& what, const BVParametersTable& t, const bvref::Model& m, Ion a, Ion b)
{
    if (m.ambiguous(a, b))  return;
    const Par* e = m.lookup(a, b);
    string w = what + " lookup " + a.first + " " + vt::str(a.second) + " " + b.first + " " + vt::str(b.second);
    const BVParam& x = t.lookup(a.first, a.second, b.first, b.second);
    const BVParam& y = t.lookup(b.first, b.second, a.first, a.second);
    checkPar(w, x, e, a, b);
    checkPar(w + " reversed", y, e, a, b);
    checkPar(w + " by object", t.lookup(BVParam(a.first, a.second, b.first, b.second, 9.9, 8.8)), e, a, b);
    if (&x != &y)  vt::fail(w + " is a different record for reversed order");
}

Key keyOf(const BVParam& p)
{
    return bvref::key(Ion(p.matom0, p.mvalence0), Ion(p.matom1, p.mvalence1));
}

void checkSet(const string& what, const BVParametersTable::SetOfBVParam& s, const bvref::Table& e)
{
    if (s.size() != e.size())
        vt::fail(what + ": " + vt::str(s.size()) + " records, expected " + vt::str(e.size()));
    for (const BVParam& p : s)
    {
        bvref::Table::const_iterator it = e.find(keyOf(p));
        if (it == e.end())  vt::fail(what + ": unexpected record of " + p.matom0 + " " + p.matom1);
        if (it->second.ro != p.mRo || it->second.b != p.mB || it->second.id != p.mref_id)
            vt::fail(what + ": different record of " + p.matom0 + " " + p.matom1);
    }
}

const vector<Key>& standardKeys()
{
    static vector<Key> rv;
    if (rv.empty())  for (auto& kv : bvref::standard())  rv.push_back(kv.first);
    return rv;
}

}   // namespace


// every record in the data file
VT_PROP(bvstandard, "all records", 1, 1)
{
    BVParametersTable t;
    bvref::Model m;
    for (const Key& k : standardKeys())
    {
        checkLookup("standard", t, m, k.first, k.second);
        for (int v : {1, 2, 3, 5})
        {
            Ion a = k.first, b = k.second;
            if (a.second == 9)  a.second = v;
            if (b.second == 9)  b.second = v;
            checkLookup("standard", t, m, a, b);
        }
    }
    checkSet("getAll", t.getAll(), bvref::standard());
    checkSet("getAllCustom", t.getAllCustom(), bvref::Table());
    c.nontrivial();
}


VT_PROP(bvtable, "lookups of standard, custom and unspecified cation records", 30000, 600000)
{
    // ions used in this case
    vector<Ion> ions;
    int ni = c.range(2, 4);
    for (int i = 0; i < ni; ++i)
    {
        Key k = c.pick(standardKeys());
        if (c.chance(1, 12))
        {
            for (const Key& q : standardKeys())
                if (q.first.second == q.second.second && c.flag())  { k = q; break; }
        }
        for (Ion a : {k.first, k.second})
        {
            if (a.second == 9 && c.chance(3, 4))  a.second = c.range(1, 4);
            if (c.chance(1, 8))  a.second = c.range(-2, 3);
            if (c.chance(1, 10))  a.first = c.oneof<const char*>({"Xx", "A", "Yy"});
            ions.push_back(a);
        }
    }
    struct T { boost::shared_ptr<BVParametersTable> t; bvref::Model m; };
    vector<T> ts(1);
    ts[0].t = boost::make_shared<BVParametersTable>();
    set<string> seen;
    int n = c.range(2, 12);
    for (int st = 0; st < n; ++st)
    {
        int i = c.below(ts.size());
        T& x = ts[i];
        Ion a = c.pick(ions), b = c.pick(ions);
        if (c.chance(1, 8) && a.second > 0)  a.second = 9;
        ostringstream w;
        w << a.first << " " << a.second << " " << b.first << " " << b.second;
        switch (c.below(9))
        {
            case 0:
            case 1:
            case 2:
            {
                Par p;
                p.ro = c.oneof({1.5, 2.0, 1.75, 0.0});
                p.b = c.oneof({0.37, 0.4, 0.0});
                p.id = c.flag() ? "" : "me";
                if (c.flag())  x.t->setCustom(a.first, a.second, b.first, b.second, p.ro, p.b, p.id);
                else  x.t->setCustom(BVParam(b.first, b.second, a.first, a.second, p.ro, p.b, p.id));
                x.m.custom[bvref::key(a, b)] = p;
                c.note() << i << " setCustom " << w.str() << " " << p.ro << "\n";
                break;
            }
            case 3:
            case 4:
                if (x.m.custom.size() && c.flag())
                {
                    int k = c.below(x.m.custom.size());
                    auto it = x.m.custom.begin();
                    advance(it, k);
                    a = it->first.first, b = it->first.second;
                    if (c.flag())  swap(a, b);
                    w.str("");
                    w << a.first << " " << a.second << " " << b.first << " " << b.second;
                }
                if (c.flag())  x.t->resetCustom(a.first, a.second, b.first, b.second);
                else  x.t->resetCustom(BVParam(a.first, a.second, b.first, b.second, 7.7));
                x.m.custom.erase(bvref::key(a, b));
                c.note() << i << " resetCustom " << w.str() << "\n";
                break;
            case 5:
                if (c.flag())
                {
                    x.t->resetAll();
                    x.m.custom.clear();
                    c.note() << i << " resetAll\n";
                }
                else
                {
                    x.t->resetAtomValences();
                    x.m.valence.clear();
                    c.note() << i << " resetAtomValences\n";
                }
                break;
            case 6:
            {
                T y;
                y.m = x.m;
                if (c.flag())  y.t = boost::make_shared<BVParametersTable>(*x.t);
                else  y.t = cloneBySerialization(x.t);
                c.note() << i << " copied as " << ts.size() << "\n";
                if (ts.size() < 4)  ts.push_back(y);
                break;
            }
            default:
            {
                // valence assigned to a symbol
                vector<string> bares;
                for (auto& z : ions)  bares.push_back(z.first);
                bvref::Symbol s = bvref::genSymbol(c, bares);
                VT_CHECK(x.t->getAtomValence(s.smbl) == x.m.getValence(s.smbl, s.valence),
                        "valence of '" << s.smbl << "' is " << x.t->getAtomValence(s.smbl));
                int v = c.range(-4, 6);
                if (c.flag())
                {
                    x.t->setAtomValence(s.smbl, v);
                    x.m.valence[s.smbl] = v;
                    c.note() << i << " setAtomValence '" << s.smbl << "' " << v << "\n";
                }
                bvref::Symbol q = bvref::genSymbol(c, bares);
                Ion e(s.bare, x.m.getValence(s.smbl, s.valence)), f(q.bare, x.m.getValence(q.smbl, q.valence));
                if (!x.m.ambiguous(e, f))
                {
                    string ww = "lookup '" + s.smbl + "' '" + q.smbl + "'";
                    checkPar(ww, x.t->lookup(s.smbl, q.smbl), x.m.lookup(e, f), e, f);
                    checkPar(ww + " reversed", x.t->lookup(q.smbl, s.smbl), x.m.lookup(e, f), e, f);
                }
            }
        }
        for (size_t j = 0; j < ts.size(); ++j)
            for (const Ion& p : ions)
                for (const Ion& q : ions)
                {
                    checkLookup("table " + vt::str(j), *ts[j].t, ts[j].m, p, q);
                    const Par* r = ts[j].m.lookup(p, q);
                    Key k = bvref::key(p, q);
                    if (r)  seen.insert(ts[j].m.custom.count(k) ? "custom" :
                            bvref::standard().count(k) ? "standard" : "cation 9");
                }
    }
    for (auto& x : ts)
    {
        checkSet("getAllCustom", x.t->getAllCustom(), x.m.custom);
        if (!c.chance(1, 10))  continue;
        bvref::Table all = bvref::standard();
        for (auto& kv : x.m.custom)  all[kv.first] = kv.second;
        checkSet("getAll", x.t->getAll(), all);
    }
    for (const string& s : seen)  c.label(s);
    if (seen.size() == 3)  c.nontrivial();
}


// single records
VT_PROP(bvparam, "two records with the same atoms and valences in a different order", 200000, 3000000)
{
    Ion a(c.oneof<const char*>({"Na", "C", "O", "Zr"}), c.range(-3, 5));
    Ion b(c.oneof<const char*>({"O", "C", "Cl", "Na"}), c.range(-3, 3));
    double ro = c.flag() ? c.real(0.5, 3) : 1.9, bb = c.flag() ? c.real(0.2, 0.7) : 0.37;
    string id = c.oneof<const char*>({"", "a", "ref"});
    BVParam p(a.first, a.second, b.first, b.second, ro, bb, id);
    BVParam q(b.first, b.second, a.first, a.second, ro, bb, id);
    c.note() << a.first << " " << a.second << " " << b.first << " " << b.second << " " << ro << " " << bb;
    VT_CHECK(p == q && !(p != q), "records of reversed atoms differ");
    VT_CHECK(p.mvalence0 >= p.mvalence1, "cation is not the first");
    BVParam::BondHash hash;
    BVParam::BondEqual equal;
    BVParam r(b.first, b.second, a.first, a.second, ro + 1, bb, id + "x");
    VT_CHECK(equal(p, q) && equal(p, r), "bonds are not equal");
    VT_CHECK(hash(p) == hash(q) && hash(p) == hash(r), "hash of equal bonds");
    VT_CHECK(p != r, "different parameters are equal");
    BVParam s(a.first, a.second + 1, b.first, b.second, ro, bb, id);
    VT_CHECK(!equal(p, s) || bvref::key(a, b) == bvref::key(Ion(a.first, a.second + 1), b), "different bonds are equal");
    VT_CHECK(equal(p, s) || p != s, "different bonds have equal records");
    // conversions
    double d = c.real(0.3, 9);
    vt::checkClose("bond valence", p.bondvalence(d), exp((ro - d) / bb), 1e-13, 0);
    vt::checkClose("distance", p.bondvalenceToDistance(p.bondvalence(d)), d, 1e-12, 1e-12);
    double v = c.logreal(1e-8, 10);
    vt::checkClose("valence", p.bondvalence(p.bondvalenceToDistance(v)), v, 1e-11, 0);
    // text
    if (id.empty())  id = "?";
    ostringstream line;
    const char* sp[] = {" ", "   ", "\t"};
    line << setprecision(17) << a.first << sp[c.below(3)] << a.second << sp[c.below(3)] << b.first <<
        sp[c.below(3)] << b.second << sp[c.below(3)] << ro << sp[c.below(3)] << bb << sp[c.below(3)] << id;
    if (c.flag())  line << " unchecked details";
    BVParam t("X", 1, "Y", -1, 5, 6, "z");
    BVParam t0 = t;
    t.setFromCifLine(line.str());
    VT_CHECK(t == BVParam(a.first, a.second, b.first, b.second, ro, bb, id), "record from " << line.str());
    // truncated or malformed line leaves it alone
    string bad;
    switch (c.below(4))
    {
        case 0: bad = a.first + " x " + b.first + " -2 1.5 0.37 b"; break;
        case 1: bad = a.first + " 2 " + b.first + " -2 1.5"; break;
        case 2: bad = ""; break;
        default: bad = a.first + " 2 " + b.first + " -2 Ro 0.37 b";
    }
    BVParam t1 = t;
    VT_THROWS(t.setFromCifLine(bad), invalid_argument, bad);
    VT_CHECK(t == t1, "malformed line changed the record");
    // serialization
    BVParam u;
    diffpy::serialization_fromstring(u, diffpy::serialization_tostring(p));
    VT_CHECK(u == p, "record after serialization");
    c.nontrivial();
}


// names of ions
VT_PROP(symbols, "a symbol with isotope prefix or charge", 400000, 5000000)
{
    vector<string> bares = {"C", "Na", "O", "Uuo", "X", "Cl", "D", "H", "Q4v"};
    bvref::Symbol s = bvref::genSymbol(c, bares, 8);
    c.note() << "'" << s.smbl << "'";
    VT_CHECK(atomBareSymbol(s.smbl) == s.bare, "bare symbol of '" << s.smbl << "' is '" << atomBareSymbol(s.smbl) << "'");
    VT_CHECK(atomValence(s.smbl) == s.valence, "valence of '" << s.smbl << "' is " << atomValence(s.smbl));
    // anything else is parsed without a failure
    string junk;
    int n = c.range(0, 6);
    for (int i = 0; i < n; ++i)  junk += c.oneof<char>({'1', '+', '-', ' ', 'C', 'a', '9', '0', '\t', '\xe9'});
    string b = atomBareSymbol(junk);
    VT_CHECK(junk.find(b) != string::npos, "bare symbol of '" << junk << "'");
    VT_CHECK(abs(atomValence(junk)) <= 8, "valence of '" << junk << "'");
    VT_CHECK(atomBareSymbol("") == "" && atomBareSymbol("2+") == "" && atomValence("") == 0, "symbols without letters");
    if (s.smbl != s.bare)  c.nontrivial();
}
