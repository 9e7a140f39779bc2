// C02 Merged parallel evaluation equals serial evaluation
#include "calc.hpp"

using namespace std;
using namespace calc;

namespace {

void parallel(Case& c, Kind k)
{
    GenOpts so = structureOpts(k);
    so.maxsites = c.oneof({6, 3, 14});
    so.maxcell = 20;
    so.minsites = c.chance(1, 8) ? 0 : 1;
    CfgOpts co;
    co.types = typePool(so);
    co.nsites = 6;
    co.mindebyeprec = 1e-12;
    if (k == COUNTER)
    {
        // pair masks after type masks depend on the structure used before,
        // workers with replayed configuration would be different
        co.typemasks = c.flag();
        co.pairmasks = !co.typemasks;
    }
    PQPtr master = make(k), serial = make(k);
    bool optimized = supportsOptimized(k) && c.flag();
    master->setEvaluatorType(optimized ? sr::OPTIMIZED : sr::BASIC);
    serial->setEvaluatorType(sr::BASIC);
    vector<Op> ops;
    ops.push_back(initialConfig(c, k, co));
    int nops = c.below(4);
    for (int i = 0; i < nops; ++i)  ops.push_back(genConfigOp(c, k, co));
    c.note() << kindnames[k] << (optimized ? " OPTIMIZED" : " BASIC");
    for (Op& o : ops)
    {
        c.note() << "; " << o.desc;
        o.fn(*master);
        o.fn(*serial);
    }
    ref::Model m = genModel(c, so);
    c.note() << "\n" << m.str() << "\n";
    int ns = m.sites.size();
    int n = 1;
    switch (c.below(4))
    {
        case 0:  n = c.range(1, 4); break;
        case 1:  n = c.range(1, 2 * ns + 2); break;
        case 2:  n = c.range(1, 40); break;
        default:  n = max(1, ns + c.range(-1, 1));
    }
    // persistent workers keep their partial values between rounds, which is
    // meaningful only for additive results
    bool persistent = (k == PDF || k == DEBYE) && c.flag();
    int nrounds = c.range(1, 3);
    vector<PQPtr> workers(n);
    int nbonds = 0;
    int nfast = 0;
    Scales hist;
    for (int ir = 0; ir < nrounds; ++ir)
    {
        if (ir)
        {
            c.note() << "edit: " << mutateModel(c, m, so) << "\n";
            if (c.chance(1, 3))
            {
                co.nsites = max(1, int(m.sites.size()));
                Op o = genConfigOp(c, k, co);
                c.note() << o.desc << "\n";
                ops.push_back(o);
                o.fn(*master);
                o.fn(*serial);
                for (PQPtr& w : workers)  if (w && persistent)  o.fn(*w);
            }
        }
        StructureAdapterPtr stru = ref::build(m);
        // an earlier serial evaluation by the master
        bool usedmaster = c.chance(1, 4);
        if (usedmaster && !persistent)
        {
            c.note() << "master evaluated before\n";
            c.label("master evaluated before");
            master->eval(stru);
        }
        bool copyfirst = usedmaster && c.flag();
        vector<int> made;
        // workers may be copied before or after the structure is assigned
        auto makeworkers = [&]() {
            for (int i : c.permutation(n))
                {
                    if (persistent && workers[i])  continue;
                    // PairCounter does not support serialization
                    if (k != COUNTER)  workers[i] = cloneBySerialization(master);
                    else
                    {
                        workers[i] = make(k);
                        for (Op& o : ops)  o.fn(*workers[i]);
                    }
                }
        };
        if (copyfirst)  makeworkers();
        master->setStructure(stru);
        if (!copyfirst)  makeworkers();
        // queries of the incomplete master must not matter
        if (c.chance(1, 4))
        {
            c.label("queried before merge");
            c.note() << "query\n";
            results(*master, true);
            if (k == OVERLAP)  results(*master);
        }
        vector<int> order = c.permutation(n);
        c.note() << n << " workers, " << (persistent ? "persistent, " : "") << "merge order " << vt::strv(order) << "\n";
        vector<string> pdata(n);
        double total = 0;
        for (int i = 0; i < n; ++i)
        {
            PairQuantity& w = *workers[i];
            w.setupParallelRun(i, n);
            w.eval(stru);
            if (w.getEvaluatorTypeUsed() == sr::OPTIMIZED)  ++nfast;
            pdata[i] = w.getParallelData();
            if (k == COUNTER)
            {
                double v = w.value().at(0);
                if (v < 0 || 2 * v != floor(2 * v))  vt::fail("worker count is " + vt::str(v));
                total += v;
            }
        }
        bool bad = c.chance(1, 4);
        string baddata;
        if (bad)
        {
            // data of a wrong size
            QuantityType q(master->value().size() + c.range(1, 3), 1.0);
            if (!master->value().empty() && c.flag())  q.resize(master->value().size() - 1);
            ostringstream os(ios::binary);
            diffpy::serialization::oarchive oa(os, ios::binary);
            oa << q;
            baddata = os.str();
        }
        int badpos = c.below(n);
        for (int i = 0; i < n; ++i)
        {
            if (bad && i == badpos && k != BOND && k != OVERLAP)
            {
                c.label("bad data rejected");
                VT_THROWS(master->mergeParallelData(baddata, n), std::invalid_argument, "data of a wrong size");
            }
            master->mergeParallelData(pdata[order[i]], n);
        }
        serial->eval(stru);
        if (k == COUNTER && total != serial->value().at(0))
            vt::fail("sum of worker counts " + vt::str(total) + " serial count " + vt::str(serial->value().at(0)));
        Results rm = results(*master), rs = results(*serial);
        compareResults("merged", rm, rs, 1e-8, 1e-10, &hist);
        Results again = rm;
        if (c.flag())
        {
            VT_THROWS(master->mergeParallelData(pdata[0], n), std::runtime_error, "more than n parts");
            compareResults("after rejected merge", results(*master), rm, 0, 0);
        }
        for (double x : serial->value())  if (x)  ++nbonds;
    }
    // worker count validation
    PQPtr w = make(k);
    VT_THROWS(w->setupParallelRun(0, c.oneof({0, -1, -3})), std::invalid_argument, "worker count");
    c.label(n == 1 ? "1 worker" : n > ns ? "more workers than sites" : "split of sites");
    if (nfast)  c.label("fast update in a worker");
    if (optimized)  c.label("OPTIMIZED");
    if (n > 1 && nbonds > 1)  c.nontrivial();
}

}   // namespace

VT_PROP(pdf, "two or more workers and a non-zero serial result", 1500, 40000) { parallel(c, PDF); }
VT_PROP(debye, "two or more workers and a non-zero serial result", 1000, 25000) { parallel(c, DEBYE); }
VT_PROP(bond, "two or more workers and a non-zero serial result", 2500, 60000) { parallel(c, BOND); }
VT_PROP(bvs, "two or more workers and a non-zero serial result", 2500, 50000) { parallel(c, BVS); }
VT_PROP(overlap, "two or more workers and a non-zero serial result", 2500, 50000) { parallel(c, OVERLAP); }
VT_PROP(counter, "two or more workers and a non-zero serial result", 2000, 40000) { parallel(c, COUNTER); }
