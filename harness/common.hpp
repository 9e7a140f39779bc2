// common.hpp - structure generators and an independent reference model of
// structures, shared by the checks.
#ifndef COMMON_HPP_INCLUDED
#define COMMON_HPP_INCLUDED

#include "vt.hpp"
#include <algorithm>
#include <array>
#include <limits>
#include <boost/make_shared.hpp>
#include <boost/shared_ptr.hpp>
#include <diffpy/serialization.hpp>
#include <diffpy/srreal/AtomicStructureAdapter.hpp>
#include <diffpy/srreal/BaseBondGenerator.hpp>
#include <diffpy/srreal/CrystalStructureAdapter.hpp>
#include <diffpy/srreal/PairQuantity.hpp>
#include <diffpy/srreal/PeriodicStructureAdapter.hpp>

using diffpy::srreal::StructureAdapterPtr;
using diffpy::srreal::StructureAdapterConstPtr;
using diffpy::srreal::AtomicStructureAdapter;
using diffpy::srreal::AtomicStructureAdapterPtr;
using diffpy::srreal::PeriodicStructureAdapter;
using diffpy::srreal::PeriodicStructureAdapterPtr;
using diffpy::srreal::CrystalStructureAdapter;
using diffpy::srreal::CrystalStructureAdapterPtr;
using diffpy::srreal::Atom;
using diffpy::srreal::PairQuantity;
using diffpy::srreal::QuantityType;
namespace R3 = diffpy::srreal::R3;
namespace sr = diffpy::srreal;
using vt::Case;

namespace ref {

typedef std::array<double,3> V3;
typedef std::array<std::array<double,3>,3> M3;

inline V3 v3(double x, double y, double z) { V3 r = {{x, y, z}}; return r; }
V3 operator+(const V3&, const V3&);
V3 operator-(const V3&, const V3&);
V3 operator*(double, const V3&);
double dot(const V3&, const V3&);
double norm(const V3&);
V3 cross(const V3&, const V3&);
M3 mul(const M3&, const M3&);
V3 mul(const M3&, const V3&);
V3 mul(const V3&, const M3&);
M3 trans(const M3&);
double det(const M3&);
M3 inv(const M3&);
M3 diag(double);
V3 fromR3(const R3::Vector&);
M3 fromR3(const R3::Matrix&);
R3::Vector toR3(const V3&);
R3::Matrix toR3(const M3&);
std::string str(const V3&);
std::string str(const M3&);
M3 rotation(const V3& axis, double rad);

struct Site
{
    std::string type;
    V3 r;           // Cartesian
    double occ = 1;
    bool aniso = false;
    M3 U = diag(0);     // Cartesian
};

struct Op       // acts on fractional column vectors
{
    M3 R;
    V3 t;
};

enum Kind { MOLECULE, PERIODIC, CRYSTAL };

struct Model
{
    Kind kind = MOLECULE;
    std::vector<Site> sites;
    double par[6] = {1, 1, 1, 90, 90, 90};
    std::string sg;
    std::vector<Op> ops;
    M3 base() const;        // rows are lattice vectors
    std::string str() const;
    bool periodic() const { return kind != MOLECULE; }
};

struct ExpSite
{
    int parent;
    V3 r;       // Cartesian
    M3 U;
};

M3 baseFromPar(const double* par);
// all atoms in a unit cell for periodic models; as is for a molecule
std::vector<ExpSite> expandSite(const Model&, int idx, double eps=5e-5);
std::vector<std::vector<ExpSite> > expandAll(const Model&);
// explicit P1 model of the same crystal, parent[i] is the source site index
Model expandP1(const Model&, std::vector<int>* parent=0);

struct Bond
{
    int i0, i1;
    double d;
    V3 r01;
    double msd;
    int k1 = 0;         // index of the site image
};

// multiset comparison of bonds by sites and displacement
void compareBonds(const std::string& what, std::vector<Bond> got,
        std::vector<Bond> exp, bool withmsd, double tol=1e-6);

// all bonds from an asymmetric-unit site to all images with lo <= d <= hi
// excluding zero distance
std::vector<Bond> bonds(const Model&, int i0, double lo, double hi);
std::vector<std::vector<Bond> > allBonds(const Model&, double lo, double hi);
double msd(const Site& s, const M3& U, const V3& dir);
// true if there is a pair distance ambiguous with respect to zero
bool hasAmbiguousSelf(const Model&, double rmax=1.0);
// smallest x >= r such that no pair distance is close to x
double clearLimit(const Model&, double r, double margin=1e-5);
std::vector<int> multiplicities(const Model&);
double totalOccupancy(const Model&);
double volume(const Model&);
int cellAtoms(const Model&);

StructureAdapterPtr build(const Model&);
Atom toAtom(const Site&);

}   // namespace ref

using ref::operator+;
using ref::operator-;
using ref::operator*;

// generators -----------------------------------------------------------------

struct GenOpts
{
    bool molecule = true;
    bool periodic = true;
    bool crystal = true;
    int maxsites = 6;
    int minsites = 0;
    int maxcell = 48;           // maximum atoms per unit cell
    bool zeroU = true;          // allow zero displacements
    bool partialocc = true;
    bool allowcoincident = true;
    double mindist = 0;         // reject shorter contacts
    bool ions = true;
    bool outside = true;        // atoms outside of the unit cell
    double cellmin = 2.6;
    double cellmax = 6.0;
    double molsize = 5.0;
    double maxU = 0.03;
    bool skewed = true;
    int largeden = 60;          // one of so many structures has many more sites
    int largesites = 20;
    std::vector<std::string> types;
};

void genLatPar(Case&, double* par, const GenOpts&, int system=-1);
ref::Model genModel(Case&, const GenOpts&);
ref::Site genSite(Case&, const GenOpts&);
ref::M3 genUiso(Case&, const GenOpts&);
ref::M3 genUaniso(Case&, const GenOpts&);
std::vector<std::string> typePool(const GenOpts&);
ref::V3 genUnitVector(Case&);
ref::M3 genRotation(Case&);
// space groups
struct SpaceGroup { std::string name; int system; std::vector<ref::Op> ops; };
const std::vector<SpaceGroup>& spaceGroups();

// apply a random edit to the model, returns a description
std::string mutateModel(Case&, ref::Model&, const GenOpts&);
bool validModel(const ref::Model&, const GenOpts&);

// serialization copy
template <class T>
boost::shared_ptr<T> cloneBySerialization(const boost::shared_ptr<T>& p)
{
    std::string s = diffpy::serialization_tostring(p);
    boost::shared_ptr<T> rv;
    diffpy::serialization_fromstring(rv, s);
    return rv;
}

#endif
