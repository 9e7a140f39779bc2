// vt.hpp - property-based testing runtime for the libdiffpy checks.
//
// A test case is generated from a stream of bounded integer choices.  The
// stream is recorded, so any failing case can be replayed and shrunk by
// editing the stream (delete, zero, lower), whatever the generator does.
// Cases run in forked workers; crashes, assertion failures and hangs of the
// code under test are failures of the current case.
#ifndef VT_HPP_INCLUDED
#define VT_HPP_INCLUDED

#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iomanip>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace vt {

struct Failure : public std::runtime_error
{
    Failure(const std::string& s) : std::runtime_error(s) { }
};

struct Discard { };

// shared between parent and worker
const unsigned MAXLOG = 1 << 16;
struct Shared
{
    volatile uint64_t caseidx;
    volatile uint64_t nlog;
    volatile uint64_t log[MAXLOG];
    volatile char msg[1 << 16];
};

class Case
{
    public:

        // choices ----------------------------------------------------------
        uint64_t below(uint64_t n);
        // inclusive range, shrinks to lo
        int range(int lo, int hi)
        { return lo + int(below(uint64_t(hi - lo) + 1)); }
        bool flag() { return below(2) == 1; }
        // true with probability num/den, shrinks to false
        bool chance(unsigned num, unsigned den)
        { return below(den) >= den - num; }
        // real in [lo, hi], shrinks towards lo with few digits
        double real(double lo, double hi);
        // signed real in [-a, a], shrinks towards 0
        double sreal(double a);
        // log-uniform positive real
        double logreal(double lo, double hi);
        template <class C>
            const typename C::value_type& pick(const C& c)
        { return c[below(c.size())]; }
        template <class T>
            T oneof(std::initializer_list<T> l)
        { return *(l.begin() + below(l.size())); }
        std::vector<int> permutation(int n);

        // reporting --------------------------------------------------------
        void label(const std::string& s) { labels.insert(s); }
        void nontrivial() { isnontrivial = true; }
        std::ostringstream& note() { return desc; }
        void discard() { throw Discard(); }

        // state
        bool replay = false;
        const std::vector<uint64_t>* pre = nullptr;
        size_t pos = 0;
        uint64_t rs = 0;
        Shared* sh = nullptr;
        std::set<std::string> labels;
        bool isnontrivial = false;
        std::ostringstream desc;
        uint64_t hash = 1469598103934665603ull;
        std::set<std::string> known;
        bool thorough = false;

        uint64_t rnd();
        void knownFinding(const std::string& key) { known.insert(key); }
};

typedef std::function<void(Case&)> PropFn;

struct Prop
{
    std::string name;
    std::string rule;
    int nquick;
    int nthorough;
    PropFn fn;
};

std::vector<Prop>& registry();

struct Reg
{
    Reg(const char* name, const char* rule, int nq, int nt, PropFn fn)
    {
        Prop p = {name, rule, nq, nt, fn};
        registry().push_back(p);
    }
};

#define VT_CAT2(a, b) a##b
#define VT_CAT(a, b) VT_CAT2(a, b)
#define VT_PROP(id, rule, nq, nt) \
    static void VT_CAT(vtprop_, id)(vt::Case&); \
    static vt::Reg VT_CAT(vtreg_, id)(#id, rule, nq, nt, VT_CAT(vtprop_, id)); \
    static void VT_CAT(vtprop_, id)(vt::Case& c)

// assertion helpers --------------------------------------------------------

inline void fail(const std::string& s) { throw Failure(s); }

#define VT_CHECK(cond, msg) do { if (!(cond)) { \
    std::ostringstream vt_os_; vt_os_ << std::setprecision(17) \
        << "line " << __LINE__ << ": " << #cond << ": " << msg; \
    vt::fail(vt_os_.str()); } } while (0)

// throws a std::exception of the given type
#define VT_THROWS(expr, ex, msg) do { bool vt_ok_ = false; \
    try { (void)(expr); } catch (ex&) { vt_ok_ = true; } \
    if (!vt_ok_) { std::ostringstream vt_os_; \
        vt_os_ << "line " << __LINE__ << ": " << #expr \
            << " did not throw " << #ex << ": " << msg; \
        vt::fail(vt_os_.str()); } } while (0)

inline bool close(double a, double b, double rtol, double atol)
{
    if (a == b)  return true;
    if (!(std::isfinite(a) && std::isfinite(b)))  return false;
    return std::fabs(a - b) <= atol + rtol * std::max(std::fabs(a), std::fabs(b));
}

void checkClose(const std::string& what, double a, double b,
        double rtol=1e-9, double atol=1e-10);

// compare sequences; the tolerance is rtol * max|.| + atol
void checkCloseSeq(const std::string& what,
        const std::vector<double>& a, const std::vector<double>& b,
        double rtol=1e-9, double atol=1e-10);

template <class T>
std::string str(const T& v)
{ std::ostringstream o; o << std::setprecision(17) << v; return o.str(); }

template <class T>
std::string strv(const T& v)
{
    std::ostringstream o; o << std::setprecision(17) << '[';
    int i = 0;
    for (const auto& x : v)  { if (i++)  o << ", "; o << x; }
    o << ']';
    return o.str();
}

// extra sub-process entry points: name -> function(argc, argv)
typedef int (*HelperFn)(int, char**);
std::map<std::string, HelperFn>& helpers();
struct RegHelper
{
    RegHelper(const char* n, HelperFn f) { helpers()[n] = f; }
};
const std::string& selfexe();
const std::string& scratchdir();   // private directory of this process tree

}   // namespace vt

#endif
