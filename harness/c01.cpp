// C01 Incremental evaluation equals full evaluation
//
// Stateful differential test: one calculator with the OPTIMIZED evaluator and
// one with BASIC get the same history; results must agree after every
// evaluation.
#include "pdfref.hpp"

using namespace std;
using namespace calc;
using namespace diffpy::srreal;

namespace {

struct Step { string desc; };

void history(Case& c, Kind k, int maxsteps)
{
    GenOpts so = structureOpts(k);
    so.maxsites = c.oneof({6, 4, 10});
    so.maxcell = 16;
    if (k != BOND && c.chance(1, 2))  so.crystal = false;
    CfgOpts co;
    co.types = typePool(so);
    co.nsites = 7;
    co.conflictmasks = c.chance(1, 3);
    co.siteall = c.range(-1, 1);
    co.mindebyeprec = 1e-12;
    PQPtr opt = make(k), bas = make(k);
    opt->setEvaluatorType(sr::OPTIMIZED);
    bas->setEvaluatorType(sr::BASIC);
    Op ini = initialConfig(c, k, co);
    c.note() << kindnames[k] << " " << ini.desc << "\n";
    ini.fn(*opt);
    ini.fn(*bas);
    vector<ref::Model> models;
    vector<StructureAdapterPtr> strus;
    models.push_back(genModel(c, so));
    strus.push_back(ref::build(models.back()));
    c.note() << models.back().str() << "\n";
    ref::Model m = models.back();
    StructureAdapterPtr cur = strus.back();
    Scales hist;
    int nopt = 0, neval = 0;
    bool valid = false;
    auto evaluate = [&](bool noarg) {
        if (noarg && opt->getStructure() == cur && bas->getStructure() == cur)
        {
            opt->eval();
            bas->eval();
            c.note() << "eval()\n";
        }
        else
        {
            opt->eval(cur);
            bas->eval(cur);
            c.note() << "eval(stru)\n";
        }
        ++neval;
        valid = true;
        if (opt->getEvaluatorTypeUsed() == sr::OPTIMIZED)
        {
            ++nopt;
            c.note() << "  fast update\n";
        }
        if (bas->getEvaluatorTypeUsed() != sr::BASIC)  vt::fail("BASIC evaluator not used");
        compareResults("evaluation " + vt::str(neval), results(*opt), results(*bas),
                1e-7, 1e-9, &hist);
    };
    evaluate(false);
    int nsteps = c.range(1, maxsteps);
    for (int i = 0; i < nsteps; ++i)
    {
        int op = c.below(16);
        if (op <= 6)
        {
            // most often a new or edited structure that differs a little
            int ned = c.range(1, 2);
            for (int e = 0; e < ned; ++e)
                c.note() << "edit: " << mutateModel(c, m, so) << "\n";
            bool inplace = c.chance(1, 3) && editInPlace(cur, m, c.flag());
            if (inplace)  c.note() << "in place\n";
            else
            {
                cur = ref::build(m);
                models.push_back(m);
                strus.push_back(cur);
            }
            evaluate(c.flag());
        }
        else if (op == 7)
        {
            // edited structure assigned, but not evaluated
            c.note() << "edit: " << mutateModel(c, m, so) << "\n";
            cur = ref::build(m);
            models.push_back(m);
            strus.push_back(cur);
            valid = false;
            opt->setStructure(cur);
            bas->setStructure(cur);
            c.note() << "setStructure\n";
            c.label("setStructure");
            if (c.flag())  evaluate(c.flag());
        }
        else if (op == 8)
        {
            // back to an earlier structure
            int j = c.below(models.size());
            m = models[j];
            cur = ref::build(m);
            strus[j] = cur;
            c.note() << "back to structure " << j << "\n";
            evaluate(false);
        }
        else if (op == 9)
        {
            // same atoms as another kind of structure or an unrelated one
            if (c.flag())
            {
                ref::Model n = m;
                if (n.kind == ref::MOLECULE)
                {
                    n.kind = c.flag() ? ref::PERIODIC : ref::CRYSTAL;
                    if (n.par[0] < so.cellmin)
                        genLatPar(c, n.par, so);
                    if (n.kind == ref::CRYSTAL && c.flag())  n.ops = spaceGroups()[c.below(2)].ops;
                }
                else if (n.kind == ref::PERIODIC)  n.kind = c.flag() ? ref::MOLECULE : ref::CRYSTAL;
                else
                {
                    n.kind = c.flag() ? ref::MOLECULE : ref::PERIODIC;
                    n.ops.clear();
                }
                if (!validModel(n, so))  continue;
                m = n;
                c.note() << "change of kind\n";
                c.label("kind switch, same atoms");
            }
            else  m = genModel(c, so);
            c.note() << m.str() << "\n";
            models.push_back(m);
            cur = ref::build(m);
            strus.push_back(cur);
            evaluate(false);
        }
        else if (op == 10)
        {
            int t = c.below(3);
            valid = false;
            c.note() << "evaluator type " << t << "\n";
            // the range of the Debye sum depends on the history of resets,
            // therefore the other calculator is reset too
            bas->setEvaluatorType(sr::OPTIMIZED);
            bas->setEvaluatorType(sr::BASIC);
            if (t == 0)
            {
                opt->setEvaluatorType(sr::BASIC);
                evaluate(true);
                opt->setEvaluatorType(sr::OPTIMIZED);
            }
            else
            {
                opt->setEvaluatorType(sr::BASIC);
                opt->setEvaluatorType(sr::OPTIMIZED);
            }
            if (t == 2)  evaluate(true);
        }
        else if (op == 11)
        {
            // copy through serialization
            Results r0;
            if (valid)  r0 = results(*opt);
            opt = cloneBySerialization(opt);
            c.note() << "serialized copy\n";
            c.label("serialized copy");
            if (opt->getEvaluatorType() != sr::OPTIMIZED)  vt::fail("copy has a different evaluator type");
            if (valid)  compareResults("copy", results(*opt), r0, 1e-12, 1e-12);
            if (c.flag())  evaluate(false);
        }
        else
        {
            co.nsites = max(1, int(m.sites.size()));
            Op o = genConfigOp(c, k, co);
            c.note() << o.desc << "\n";
            valid = false;
            o.fn(*opt);
            o.fn(*bas);
            c.label("configuration change");
            if (c.flag())  evaluate(c.flag());
        }
    }
    evaluate(true);
    if (nopt)  c.label("fast update used");
    if (nopt > 1)  c.nontrivial();
}

// Histories of one sort of configuration changes on one structure, where any
// change missed by the calculator shows up as a fast update of a stale value.

struct Twins
{
    PQPtr opt, bas;
    Scales hist;
    int nopt = 0, neval = 0;
    set<string> seen;

    Twins(Kind k, Op ini) : opt(make(k)), bas(make(k))
    {
        opt->setEvaluatorType(sr::OPTIMIZED);
        bas->setEvaluatorType(sr::BASIC);
        this->apply(ini);
    }

    void apply(const Op& o) { o.fn(*opt); o.fn(*bas); }

    void evaluate(Case& c, StructureAdapterPtr stru)
    {
        opt->eval(stru);
        bas->eval(stru);
        ++neval;
        bool fast = opt->getEvaluatorTypeUsed() == sr::OPTIMIZED;
        nopt += fast;
        c.note() << (fast ? "fast update\n" : "evaluation\n");
        Results r = results(*bas);
        compareResults("evaluation " + vt::str(neval), results(*opt), r, 1e-7, 1e-9, &hist);
        seen.insert(vt::strv(bas->value()));
    }
};

GenOpts smallStructure(Kind k)
{
    GenOpts so = structureOpts(k);
    so.maxsites = 4;
    so.maxcell = 8;
    so.largeden = 0;
    return so;
}

}   // namespace

VT_PROP(masks, "a fast update was made and masks changed the value at least twice", 50000, 600000)
{
    Kind k = c.oneof({BOND, PDF, DEBYE, BOND});
    GenOpts so = smallStructure(k);
    so.types = {so.types.empty() ? string("C") : so.types[0], "O"};
    CfgOpts co;
    co.types = so.types;
    co.conflictmasks = true;
    co.siteall = c.range(-1, 1);
    int mode = c.below(3);
    if (mode == 0)  co.pairmasks = false;
    if (mode == 1)  co.typemasks = false;
    co.mindebyeprec = 1e-12;
    ref::Model m = genModel(c, so);
    co.nsites = max(1, int(m.sites.size()));
    Op ini = initialConfig(c, k, co);
    c.note() << kindnames[k] << " " << ini.desc << "\n" << m.str() << "\n";
    Twins t(k, ini);
    StructureAdapterPtr stru = ref::build(m);
    t.evaluate(c, stru);
    int nsteps = c.range(2, 12);
    for (int i = 0; i < nsteps; ++i)
    {
        Op o = genMaskOp(c, co);
        c.note() << o.desc << "\n";
        t.apply(o);
        if (c.chance(2, 3) || i == nsteps - 1)  t.evaluate(c, stru);
    }
    if (t.nopt && t.seen.size() > 2)  c.nontrivial();
}


VT_PROP(components, "a fast update was made and components changed the value at least twice", 16000, 200000)
{
    Kind k = c.oneof({PDF, DEBYE});
    GenOpts so = smallStructure(k);
    CfgOpts co;
    co.mindebyeprec = 1e-12;
    ref::Model m = genModel(c, so);
    Op ini = initialConfig(c, k, co);
    c.note() << kindnames[k] << " " << ini.desc << "\n" << m.str() << "\n";
    Twins t(k, ini);
    // The components exist before the first evaluation, thus none of them is
    // newer than the value when it is assigned.
    typedef vector<PeakWidthModelPtr> Widths;
    typedef vector<PeakProfilePtr> Profiles;
    typedef vector<ScatteringFactorTablePtr> Tables;
    Widths w[2];
    Profiles p[2];
    Tables s[2];
    for (int i = 0; i < 2; ++i)
    {
        for (const char* tp : {"jeong", "jeong", "debye-waller", "constant", "constant"})
            w[i].push_back(PeakWidthModel::createByType(tp));
        w[i][1]->setDoubleAttr("delta2", 0.8);
        w[i][3]->setDoubleAttr("width", 0.2);
        w[i][4]->setDoubleAttr("width", 0.1);
        for (const char* tp : {"gaussian", "gaussian", "croppedgaussian", "croppedgaussian"})
            p[i].push_back(PeakProfile::createByType(tp));
        p[i][0]->setPrecision(1e-5);
        p[i][1]->setPrecision(1e-9);
        p[i][2]->setPrecision(1e-6);
        p[i][3]->setPrecision(1e-8);
        for (const char* tp : {"xray", "xray", "neutron", "neutron"})
            s[i].push_back(ScatteringFactorTable::createByType(tp));
        if (!m.sites.empty())
            for (int j : {1, 3})  s[i][j]->setCustomAs(m.sites[0].type, m.sites[0].type, 3.5 + j);
    }
    StructureAdapterPtr stru = ref::build(m);
    t.evaluate(c, stru);
    int nsteps = c.range(2, 10);
    for (int i = 0; i < nsteps; ++i)
    {
        int op = c.below(4);
        bool copy = c.chance(1, 4);
        if (op == 0 || (op == 1 && k != PDF))
        {
            int j = c.below(w[0].size());
            c.note() << "width model " << j << (copy ? " copy" : "") << "\n";
            dynamic_cast<PeakWidthModelOwner&>(*t.opt).setPeakWidthModel(copy ? w[0][j]->clone() : w[0][j]);
            dynamic_cast<PeakWidthModelOwner&>(*t.bas).setPeakWidthModel(copy ? w[1][j]->clone() : w[1][j]);
        }
        else if (op == 1)
        {
            int j = c.below(p[0].size());
            c.note() << "profile " << j << (copy ? " copy" : "") << "\n";
            dynamic_cast<PDFCalculator&>(*t.opt).setPeakProfile(copy ? p[0][j]->clone() : p[0][j]);
            dynamic_cast<PDFCalculator&>(*t.bas).setPeakProfile(copy ? p[1][j]->clone() : p[1][j]);
        }
        else if (op == 2)
        {
            int j = c.below(s[0].size());
            c.note() << "table " << j << (copy ? " copy" : "") << "\n";
            dynamic_cast<ScatteringFactorTableOwner&>(*t.opt).setScatteringFactorTable(copy ? s[0][j]->clone() : s[0][j]);
            dynamic_cast<ScatteringFactorTableOwner&>(*t.bas).setScatteringFactorTable(copy ? s[1][j]->clone() : s[1][j]);
        }
        else
        {
            // change of a component, which may be in use or not
            int j = c.below(4), v = c.below(3);
            c.note() << "edit " << j << " " << v << "\n";
            for (int i = 0; i < 2; ++i)
            {
                if (j == 0)  w[i][v % 2]->setDoubleAttr("delta1", 0.1 + 0.2 * v);
                if (j == 1)  w[i][4]->setDoubleAttr("width", 0.1 + 0.05 * v);
                if (j == 2)  p[i][v]->setPrecision(1e-7);
                if (j == 3 && m.sites.size())  s[i][v]->setCustomAs(m.sites[0].type, m.sites[0].type, 2.5);
            }
        }
        if (c.chance(2, 3) || i == nsteps - 1)  t.evaluate(c, stru);
    }
    if (t.nopt && t.seen.size() > 2)  c.nontrivial();
}

VT_PROP(pdf, "at least two fast updates were made in the history", 12000, 200000)
{ history(c, PDF, 10); }

VT_PROP(debye, "at least two fast updates were made in the history", 8000, 120000)
{ history(c, DEBYE, 10); }

VT_PROP(bond, "at least two fast updates were made in the history", 10000, 200000)
{ history(c, BOND, 12); }
