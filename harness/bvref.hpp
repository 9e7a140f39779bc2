// bvref.hpp - independent model of bond valence parameters
#ifndef BVREF_HPP_INCLUDED
#define BVREF_HPP_INCLUDED

#include "common.hpp"
#include <diffpy/srreal/BVParametersTable.hpp>
#include <fstream>

namespace bvref {

using std::string;
using std::vector;

struct Par { double ro = 0, b = 0; string id; };
typedef std::pair<string,int> Ion;
typedef std::pair<Ion,Ion> Key;     // sorted
typedef std::map<Key, Par> Table;

inline Key key(Ion a, Ion b) { return a < b ? Key(a, b) : Key(b, a); }

// parameters in the data file of the source tree
inline const Table& standard()
{
    static Table rv;
    if (!rv.empty())  return rv;
    const char* dir = getenv("DIFFPYRUNTIME");
    std::ifstream fp((string(dir ? dir : "/repo/src/runtime") + "/bvparm2011sel.cif").c_str());
    string line;
    bool data = false, loop = false;
    while (std::getline(fp, line))
    {
        std::istringstream f(line);
        vector<string> w;
        string x;
        while (f >> x)  w.push_back(x);
        if (!loop)  { loop = w.size() && w[0] == "_valence_param_B"; continue; }
        if (!data)  { data = w.empty(); continue; }
        if (w.empty() || w[0][0] == '#')  continue;
        Par p;
        p.ro = std::stod(w.at(4));
        p.b = std::stod(w.at(5));
        p.id = w.at(6);
        Key k = key(Ion(w[0], std::stoi(w[1])), Ion(w[2], std::stoi(w[3])));
        if (rv.count(k))  vt::fail("duplicate bond in the data file");
        rv[k] = p;
    }
    if (rv.size() < 1000)  vt::fail("cannot read data file of bond valence parameters");
    return rv;
}

struct Model
{
    Table custom;
    std::map<string,int> valence;

    const Par* find(const Key& k) const
    {
        Table::const_iterator it = custom.find(k);
        if (it != custom.end())  return &it->second;
        it = standard().find(k);
        return it == standard().end() ? nullptr : &it->second;
    }

    // null when there are no parameters
    const Par* lookup(Ion a, Ion b) const
    {
        const Par* p = find(key(a, b));
        if (p)  return p;
        // unspecified cation has valence 9, this is the one with larger valence
        if (a.second < b.second)  std::swap(a, b);
        if (a.second <= 0)  return nullptr;
        p = find(key(Ion(a.first, 9), b));
        if (p || a.second != b.second)  return p;
        return find(key(a, Ion(b.first, 9)));
    }

    // two records of unspecified cations compete for the pair
    bool ambiguous(Ion a, Ion b) const
    {
        return a.second == b.second && a.second > 0 && !(find(key(a, b))) &&
            find(key(Ion(a.first, 9), b)) && find(key(a, Ion(b.first, 9)));
    }

    int getValence(const string& smbl, int standardvalence) const
    {
        auto it = valence.find(smbl);
        return it == valence.end() ? standardvalence : it->second;
    }

    double bv(Ion a, Ion b, double d) const
    {
        const Par* p = lookup(a, b);
        return p && p->b > 0 ? std::exp((p->ro - d) / p->b) : 0.0;
    }
};

// atom symbols of known meaning
struct Symbol { string smbl; string bare; int valence; };

inline Symbol genSymbol(Case& c, const vector<string>& bares, int vmax=4)
{
    Symbol rv;
    rv.bare = c.pick(bares);
    int v = c.range(0, 2 * vmax);
    rv.valence = v % 2 ? (v + 1) / 2 : -v / 2;
    string pre = c.chance(1, 6) ? c.oneof<const char*>({"23-", "1-", "12", " ", "\t7-"}) : "";
    string post;
    if (rv.valence)
    {
        int a = std::abs(rv.valence);
        if (a > 1 || c.flag())  post += char('0' + a);
        post += rv.valence > 0 ? "+" : "-";
    }
    if (c.chance(1, 8))  post += c.oneof<const char*>({" ", "\t", "  "});
    rv.smbl = pre + rv.bare + post;
    return rv;
}

}   // namespace bvref

#endif
