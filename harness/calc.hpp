// calc.hpp - calculators of all kinds behind one interface: named results,
// generated configuration changes and masks, shared by the checks.
#ifndef CALC_HPP_INCLUDED
#define CALC_HPP_INCLUDED

#include "common.hpp"
#include <diffpy/srreal/BVSCalculator.hpp>
#include <diffpy/srreal/BondCalculator.hpp>
#include <diffpy/srreal/DebyePDFCalculator.hpp>
#include <diffpy/srreal/OverlapCalculator.hpp>
#include <diffpy/srreal/PDFCalculator.hpp>
#include <diffpy/srreal/PairCounter.hpp>

namespace calc {

enum Kind { PDF, DEBYE, BOND, BVS, OVERLAP, COUNTER, NKINDS };
extern const char* const kindnames[];

typedef boost::shared_ptr<PairQuantity> PQPtr;

PQPtr make(Kind);
Kind kindOf(const PairQuantity&);
bool supportsOptimized(Kind);

struct Results
{
    std::map<std::string, std::vector<double> > arr;
    std::map<std::string, std::string> txt;
    bool hasbonds = false;
    std::vector<ref::Bond> bonds;       // overlap value is in msd
    std::vector<std::string> bondtypes; // "i0:type0 i1:type1", sorted unique
};

// historic maximum of absolute values
struct Scales { std::map<std::string, double> mx; };

// lite skips the expensive overlap pair functions
Results results(const PairQuantity&, bool lite=false);
void compareResults(const std::string& what, const Results& a,
        const Results& b, double rtol=1e-9, double atol=1e-10,
        Scales* hist=0);

// exact configuration read-out: double attributes, types of components,
// custom table data, masks
std::map<std::string, std::string> configOf(const PairQuantity&, int nsites,
        const std::vector<std::string>& types);
void compareConfig(const std::string& what,
        const std::map<std::string, std::string>& a,
        const std::map<std::string, std::string>& b, double attrtol=0);

struct Op
{
    std::string desc;
    std::function<void(PairQuantity&)> fn;
    bool structural = false;
};

struct CfgOpts
{
    bool masks = true;
    bool components = true;
    bool tables = true;
    bool ranges = true;
    bool cones = true;
    bool conflictmasks = false;     // masks of sites or types with all, inversion
    // value for masks of a site with all others.  Opposite values together with
    // structure changes are a known finding.  Inversion is used only for -1.
    int siteall = -1;
    bool typemasks = true;
    bool pairmasks = true;
    bool inplace = true;            // change components in place
    int nsites = 6;
    double rmaxhi = 7.0;
    double minprec = 0;             // force this peak precision if > 0
    double mindebyeprec = -1;       // force this Debye precision if >= 0
    std::vector<std::string> types;
};

// initial small configuration suited for quick evaluation
Op initialConfig(Case&, Kind, const CfgOpts&);
Op genConfigOp(Case&, Kind, const CfgOpts&);
Op genMaskOp(Case&, const CfgOpts&);

// bring an existing structure object to the new model by in-place edits,
// returns false when this is not possible
bool editInPlace(StructureAdapterPtr, const ref::Model& m, bool lazy=false);

// default structure options for calculator checks
GenOpts structureOpts(Kind);

}   // namespace calc

#endif
