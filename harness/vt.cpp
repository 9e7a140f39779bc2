#include "vt.hpp"
#include <algorithm>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <limits.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>
#include <unordered_set>

using namespace std;

namespace vt {

vector<Prop>& registry()
{
    static vector<Prop> r;
    return r;
}

map<string, HelperFn>& helpers()
{
    static map<string, HelperFn> h;
    return h;
}

namespace {
string theselfexe;
string thescratch;
}

const string& selfexe() { return theselfexe; }
const string& scratchdir() { return thescratch; }

// class Case ---------------------------------------------------------------

static uint64_t splitmix(uint64_t& s)
{
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}


uint64_t Case::rnd() { return splitmix(rs); }


uint64_t Case::below(uint64_t n)
{
    uint64_t v;
    if (n <= 1)  v = 0;
    else if (replay)
    {
        v = (pos < pre->size()) ? min((*pre)[pos], n - 1) : 0;
    }
    else  v = rnd() % n;
    ++pos;
    if (sh && sh->nlog < MAXLOG)
    {
        sh->log[sh->nlog] = v;
        sh->nlog = sh->nlog + 1;
    }
    hash = (hash ^ (v + 1)) * 1099511628211ull;
    if (pos > 60000)  throw Discard();
    return v;
}


double Case::real(double lo, double hi)
{
    // grid refinement: coarse values are frequent and simple
    switch (below(4))
    {
        case 0: return lo + (hi - lo) * below(5) / 4.0;
        case 1: return lo + (hi - lo) * below(21) / 20.0;
        case 2: return lo + (hi - lo) * below(1001) / 1000.0;
        default: return lo + (hi - lo) * (below(1u << 30) / double((1u << 30) - 1));
    }
}


double Case::sreal(double a)
{
    bool neg = flag();
    double v = real(0, a);
    return neg ? -v : v;
}


double Case::logreal(double lo, double hi)
{
    return exp(real(log(lo), log(hi)));
}


vector<int> Case::permutation(int n)
{
    vector<int> rv(n);
    for (int i = 0; i < n; ++i)  rv[i] = i;
    for (int i = 0; i < n - 1; ++i)
        swap(rv[i], rv[i + below(n - i)]);
    return rv;
}

// comparisons ----------------------------------------------------------------

void checkClose(const string& what, double a, double b,
        double rtol, double atol)
{
    if (close(a, b, rtol, atol))  return;
    ostringstream o;
    o << setprecision(17) << what << ": got " << a << ", expected " << b
        << ", diff " << (a - b);
    fail(o.str());
}


void checkCloseSeq(const string& what,
        const vector<double>& a, const vector<double>& b,
        double rtol, double atol)
{
    ostringstream o;
    o << setprecision(17) << what << ": ";
    if (a.size() != b.size())
    {
        o << "size " << a.size() << ", expected " << b.size();
        fail(o.str());
    }
    double mx = 0;
    for (double x : b)  if (isfinite(x))  mx = max(mx, fabs(x));
    double tol = rtol * mx + atol;
    for (size_t i = 0; i < a.size(); ++i)
    {
        if (a[i] == b[i])  continue;
        if (!(fabs(a[i] - b[i]) <= tol))
        {
            size_t nbad = 0;
            for (size_t k = 0; k < a.size(); ++k)
                if (!(a[k] == b[k] || fabs(a[k] - b[k]) <= tol))  ++nbad;
            o << "element " << i << " of " << a.size() << ": got " << a[i] <<
                ", expected " << b[i] << ", tolerance " << tol <<
                ", " << nbad << " bad elements";
            fail(o.str());
        }
    }
}

// Execution ------------------------------------------------------------------

namespace {

struct Outcome
{
    enum Kind { OK, DISCARD, FAIL } kind;
    string msg;
};

struct Options
{
    string prop;
    string tier = "quick";
    uint64_t seed = 1;
    string evidence;
    string replaydir;
    string replay;
    string only;
    int workers = 8;
    double scale = 1;
    double started = 0;
    int maxwall = 0;
    bool verbose = false;
    bool list = false;
} opt;

double now()
{
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    return t.tv_sec + 1e-9 * t.tv_nsec;
}

// CPU seconds allowed for a single case
int cpulimit()
{
    return opt.tier == "thorough" ? 120 : 60;
}

void armTimer()
{
    struct itimerval it;
    memset(&it, 0, sizeof(it));
    it.it_value.tv_sec = cpulimit();
    setitimer(ITIMER_VIRTUAL, &it, NULL);
}


Outcome runCase(const Prop& p, Case& c)
{
    Outcome rv;
    rv.kind = Outcome::OK;
    armTimer();
    c.thorough = (opt.tier == "thorough");
    try {
        p.fn(c);
    }
    catch (Discard&) {
        rv.kind = Outcome::DISCARD;
    }
    catch (Failure& e) {
        rv.kind = Outcome::FAIL;
        rv.msg = e.what();
    }
    catch (std::exception& e) {
        rv.kind = Outcome::FAIL;
        rv.msg = string("unexpected exception ") + typeid(e).name() + ": " + e.what();
    }
    catch (...) {
        rv.kind = Outcome::FAIL;
        rv.msg = "unexpected non-standard exception";
    }
    return rv;
}


uint64_t caseSeed(const Prop& p, uint64_t idx)
{
    uint64_t s = opt.seed * 0x9e3779b97f4a7c15ull + 12345;
    for (char ch : p.name)  s = (s ^ uint64_t(uint8_t(ch))) * 1099511628211ull;
    splitmix(s);
    s ^= idx * 0xd1342543de82ef95ull;
    splitmix(s);
    return s;
}


Shared* newShared()
{
    void* m = mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE,
            MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED)  { perror("mmap"); exit(3); }
    return static_cast<Shared*>(m);
}


void setMsg(Shared* sh, const string& s)
{
    size_t n = min(s.size(), sizeof(sh->msg) - 1);
    for (size_t i = 0; i < n; ++i)  sh->msg[i] = s[i];
    sh->msg[n] = 0;
}


string getMsg(Shared* sh)
{
    string rv;
    for (size_t i = 0; i < sizeof(sh->msg) && sh->msg[i]; ++i)
        rv += char(sh->msg[i]);
    return rv;
}


string describeStatus(int st)
{
    ostringstream o;
    if (WIFSIGNALED(st))
    {
        int sg = WTERMSIG(st);
        if (sg == SIGVTALRM)  o << "case exceeded " << cpulimit() << " s of CPU time";
        else  o << "process died with signal " << sg << " (" << strsignal(sg) << ")";
    }
    else  o << "process ended with status " << WEXITSTATUS(st);
    return o.str();
}

const int EXIT_FAILCASE = 41;
const int EXIT_DISCARD = 42;

void quietStderr()
{
    if (opt.verbose)  return;
    int fd = open((thescratch + "/stderr.txt").c_str(),
            O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd >= 0)  { dup2(fd, 2); ::close(fd); }
}

string tailStderr()
{
    ifstream fp(thescratch + "/stderr.txt");
    string s((istreambuf_iterator<char>(fp)), istreambuf_iterator<char>());
    if (s.size() > 1500)  s = s.substr(0, 1500);
    while (!s.empty() && s.back() == '\n')  s.pop_back();
    return s;
}

// Run one choice sequence in a forked child.
struct ChildResult
{
    bool failed;
    string msg;
    vector<uint64_t> log;
    string desc;
};

// write out the case description when the process is about to die
Case* dyingcase = nullptr;
string dyingfile;

void dumpCase(int sg)
{
    signal(sg, SIG_DFL);
    if (dyingcase)
    {
        string d = dyingcase->desc.str();
        FILE* fp = fopen(dyingfile.c_str(), "w");
        if (fp)
        {
            fwrite(d.data(), 1, d.size(), fp);
            fclose(fp);
        }
    }
    raise(sg);
}

ChildResult runForked(const Prop& p, const vector<uint64_t>& choices, bool wantdesc=false)
{
    static Shared* sh = newShared();
    sh->nlog = 0;
    sh->msg[0] = 0;
    ChildResult rv;
    string dfile = thescratch + "/desc.txt";
    unlink(dfile.c_str());
    fflush(NULL);
    pid_t pid = fork();
    if (pid == 0)
    {
        quietStderr();
        Case c;
        c.replay = true;
        c.pre = &choices;
        c.sh = sh;
        if (wantdesc)
        {
            dyingcase = &c;
            dyingfile = dfile;
            for (int sg : {SIGABRT, SIGFPE, SIGALRM})  signal(sg, dumpCase);
#ifndef __SANITIZE_ADDRESS__
            signal(SIGSEGV, dumpCase);
#endif
        }
        Outcome o = runCase(p, c);
        if (wantdesc)
        {
            ofstream fp(dfile);
            fp << c.desc.str();
        }
        if (o.kind == Outcome::FAIL)
        {
            setMsg(sh, o.msg);
            _exit(EXIT_FAILCASE);
        }
        _exit(o.kind == Outcome::OK ? 0 : EXIT_DISCARD);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    rv.failed = !(WIFEXITED(st) &&
            (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == EXIT_DISCARD));
    if (rv.failed)
    {
        if (WIFEXITED(st) && WEXITSTATUS(st) == EXIT_FAILCASE)  rv.msg = getMsg(sh);
        else
        {
            rv.msg = describeStatus(st);
            string t = tailStderr();
            if (!t.empty())  rv.msg += ": " + t;
        }
    }
    for (uint64_t i = 0; i < sh->nlog; ++i)  rv.log.push_back(uint64_t(sh->log[i]));
    if (wantdesc)
    {
        ifstream fp(dfile);
        rv.desc.assign(istreambuf_iterator<char>(fp), istreambuf_iterator<char>());
    }
    return rv;
}

// Run a history of seeded cases in one forked child; true when the last fails.
bool runSequence(const Prop& p, const vector<uint64_t>& idx, string* msg)
{
    static Shared* sh = newShared();
    sh->msg[0] = 0;
    fflush(NULL);
    pid_t pid = fork();
    if (pid == 0)
    {
        quietStderr();
        for (uint64_t i : idx)
        {
            Case c;
            c.rs = caseSeed(p, i);
            Outcome o = runCase(p, c);
            if (o.kind == Outcome::FAIL)
            {
                setMsg(sh, o.msg);
                _exit(EXIT_FAILCASE);
            }
        }
        _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0)  return false;
    *msg = (WIFEXITED(st) && WEXITSTATUS(st) == EXIT_FAILCASE) ?
        getMsg(sh) : describeStatus(st) + ": " + tailStderr();
    return true;
}


vector<uint64_t> shrink(const Prop& p, vector<uint64_t> best, ChildResult& res)
{
    double t0 = now();
    int budget = 1500;
    auto better = [](const vector<uint64_t>& a, const vector<uint64_t>& b)
    {
        if (a.size() != b.size())  return a.size() < b.size();
        return lexicographical_compare(a.begin(), a.end(), b.begin(), b.end());
    };
    auto attempt = [&](const vector<uint64_t>& cand) -> bool
    {
        if (budget <= 0 || now() - t0 > 60)  return false;
        --budget;
        ChildResult r = runForked(p, cand);
        if (!r.failed)  return false;
        // drop unused tail and use normalized values
        vector<uint64_t> l = r.log;
        while (!l.empty() && l.back() == 0)  l.pop_back();
        if (!better(l, best))  return false;
        best = l;
        res = r;
        return true;
    };
    bool progress = true;
    while (progress && budget > 0 && now() - t0 < 60)
    {
        progress = false;
        for (size_t k = max<size_t>(1, best.size() / 2); k >= 1; k /= 2)
        {
            for (size_t i = best.size(); i-- > 0; )
            {
                if (i + k > best.size())  continue;
                vector<uint64_t> cand(best);
                cand.erase(cand.begin() + i, cand.begin() + i + k);
                if (attempt(cand))  { progress = true; continue; }
                if (k <= 8 && i > 0 && best[i - 1] > 0 && i + k <= best.size())
                {
                    // delete block and lower the preceding count
                    cand = best;
                    cand.erase(cand.begin() + i, cand.begin() + i + k);
                    cand[i - 1] -= 1;
                    if (attempt(cand))  progress = true;
                }
                if (k > 4 && i >= k)  i -= k / 2;
            }
            if (k == 1)  break;
        }
        for (size_t k = 8; k >= 1; k /= 2)
        {
            for (size_t i = 0; i + k <= best.size(); i += k)
            {
                bool allz = true;
                for (size_t m = i; m < i + k; ++m)  allz = allz && !best[m];
                if (allz)  continue;
                vector<uint64_t> cand(best);
                fill(cand.begin() + i, cand.begin() + i + k, 0);
                if (attempt(cand))  progress = true;
            }
            if (k == 1)  break;
        }
        for (size_t i = 0; i < best.size(); ++i)
        {
            uint64_t lo = 0;
            while (i < best.size() && lo < best[i])
            {
                uint64_t mid = lo + (best[i] - lo) / 2;
                vector<uint64_t> cand(best);
                cand[i] = mid;
                if (attempt(cand))  progress = true;
                else  { lo = mid + 1; }
                if (budget <= 0)  break;
            }
        }
    }
    return best;
}


string jsonstr(const string& s)
{
    ostringstream o;
    o << '"';
    for (unsigned char ch : s)
    {
        if (ch == '"' || ch == '\\')  o << '\\' << ch;
        else if (ch == '\n')  o << "\\n";
        else if (ch < 32 || ch > 126)
        {
            char b[8];
            snprintf(b, sizeof(b), "\\u%04x", ch);
            o << b;
        }
        else  o << ch;
    }
    o << '"';
    return o.str();
}

struct Stats
{
    uint64_t evals = 0;
    uint64_t discards = 0;
    uint64_t nontriv = 0;
    unordered_set<uint64_t> distinct;
    map<string, uint64_t> labels;
    set<string> known;
    vector<string> samples;
};

void writeStats(const Stats& s, const string& fname)
{
    ofstream fp(fname);
    fp << s.evals << ' ' << s.discards << ' ' << s.nontriv << '\n';
    fp << s.distinct.size() << '\n';
    for (uint64_t h : s.distinct)  fp << h << '\n';
    fp << s.labels.size() << '\n';
    for (auto& l : s.labels)  fp << l.second << ' ' << l.first << '\n';
    fp << s.known.size() << '\n';
    for (auto& l : s.known)  fp << l << '\n';
    fp << s.samples.size() << '\n';
    for (auto& l : s.samples)
        fp << l.size() << '\n' << l << '\n';
}

void readStats(Stats& s, const string& fname)
{
    ifstream fp(fname);
    uint64_t a, b, d, n;
    if (!(fp >> a >> b >> d))  return;
    s.evals += a; s.discards += b; s.nontriv += d;
    fp >> n;
    for (uint64_t i = 0; i < n; ++i) { uint64_t h; fp >> h; s.distinct.insert(h); }
    fp >> n;
    string line;
    for (uint64_t i = 0; i < n; ++i)
    {
        uint64_t k; fp >> k; fp.get(); getline(fp, line);
        s.labels[line] += k;
    }
    fp >> n; getline(fp, line);
    for (uint64_t i = 0; i < n; ++i) { getline(fp, line); s.known.insert(line); }
    fp >> n;
    for (uint64_t i = 0; i < n; ++i)
    {
        size_t sz; fp >> sz; fp.get();
        string t(sz, ' ');
        fp.read(&t[0], sz);
        s.samples.push_back(t);
    }
}


void replaceAll(string& s, const string& a, const string& b)
{
    for (size_t p = 0; (p = s.find(a, p)) != string::npos; p += b.size())
        s.replace(p, a.size(), b);
}


string writeReplay(const Prop& p, const string& kind,
        const vector<uint64_t>& choices, const string& msg, const string& desc)
{
    mkdir(opt.replaydir.c_str(), 0755);
    ostringstream fn;
    fn << opt.replaydir << '/' << opt.prop << '-' << p.name << '-' <<
        opt.tier << '-' << opt.seed << ".replay";
    ofstream fp(fn.str());
    string m = msg, d = desc;
    replaceAll(m, "\n", "\n# ");
    replaceAll(d, "\n", "\n# ");
    fp << "# failing case of property " << opt.prop << '\n';
    fp << "# run: python3 check.py " << opt.prop << " --replay " << fn.str() << '\n';
    fp << "# failure: " << m << '\n';
    fp << "# case: " << d << '\n';
    fp << "prop " << p.name << '\n';
    fp << "tier " << opt.tier << '\n';
    fp << "seed " << opt.seed << '\n';
    fp << kind << '\n';
    for (uint64_t v : choices)  fp << v << '\n';
    return fn.str();
}


int doReplay()
{
    ifstream fp(opt.replay);
    if (!fp)  { cerr << "cannot open " << opt.replay << endl; return 3; }
    string line, name, kind;
    vector<uint64_t> ch;
    while (getline(fp, line))
    {
        if (line.empty() || line[0] == '#')  continue;
        istringstream is(line);
        string w;
        is >> w;
        if (w == "prop")  is >> name;
        else if (w == "tier")  is >> opt.tier;
        else if (w == "seed")  is >> opt.seed;
        else if (w == "choices" || w == "cases")  kind = w;
        else  ch.push_back(strtoull(w.c_str(), NULL, 10));
    }
    for (auto& p : registry())
    {
        if (p.name != name)  continue;
        if (kind == "cases")
        {
            string msg;
            bool bad = runSequence(p, ch, &msg);
            cout << (bad ? "FAILS: " + msg : string("PASSES")) << endl;
            return bad;
        }
        ChildResult r = runForked(p, ch, true);
        cout << r.desc << endl;
        cout << (r.failed ? "FAILS: " + r.msg : string("PASSES")) << endl;
        return r.failed;
    }
    cerr << "no such property " << name << endl;
    return 3;
}


void makeScratch()
{
    char buf[] = "/tmp/vtXXXXXX";
    thescratch = mkdtemp(buf);
}

void removeScratch()
{
    // only files directly inside the private directory
    string cmd = "find '" + thescratch + "' -mindepth 1 -delete; rmdir '" + thescratch + "'";
    if (thescratch.compare(0, 7, "/tmp/vt") == 0)  { int r = system(cmd.c_str()); (void) r; }
}


int runAll()
{
    double t0 = opt.started ? opt.started : now();
    vector<pair<string, Stats> > all;
    int violations = 0;
    vector<string> vlines;
    bool flaky = false;
    string harnesserr;
    set<string> known;
    for (auto& p : registry())
    {
        if (!opt.only.empty() && p.name != opt.only)  continue;
        if (violations)  break;
        double tp = now();
        int n = (opt.tier == "thorough") ? p.nthorough : p.nquick;
        n = max(1, int(n * opt.scale));
        int W = max(1, min(opt.workers, n));
        vector<Shared*> sh(W);
        vector<pid_t> pids(W);
        fflush(NULL);
        cout.flush();
        for (int w = 0; w < W; ++w)
        {
            sh[w] = newShared();
            sh[w]->nlog = 0;
            pids[w] = fork();
            if (pids[w] == 0)
            {
                quietStderr();
                Stats st;
                for (int i = w; i < n; i += W)
                {
                    sh[w]->caseidx = i;
                    sh[w]->nlog = 0;
                    Case c;
                    c.sh = sh[w];
                    c.rs = caseSeed(p, i);
                    Outcome o = runCase(p, c);
                    if (o.kind == Outcome::FAIL)
                    {
                        setMsg(sh[w], o.msg);
                        _exit(EXIT_FAILCASE);
                    }
                    if (o.kind == Outcome::DISCARD)  { st.discards++; continue; }
                    st.evals++;
                    if (c.isnontrivial)
                    {
                        st.nontriv++;
                        st.distinct.insert(c.hash);
                    }
                    for (auto& l : c.labels)  st.labels[l]++;
                    for (auto& l : c.known)  st.known.insert(l);
                    string d = c.desc.str();
                    if (c.isnontrivial && !d.empty() && st.samples.size() < 1)
                        st.samples.push_back(d.substr(0, 1500));
                }
                ostringstream fn;
                fn << thescratch << "/stats" << w;
                writeStats(st, fn.str());
                _exit(0);
            }
        }
        int badw = -1, badst = 0;
        for (int k = 0; k < W; ++k)
        {
            int st = 0;
            pid_t pid = waitpid(-1, &st, 0);
            int w = find(pids.begin(), pids.end(), pid) - pids.begin();
            if (w >= W)  { --k; continue; }
            pids[w] = 0;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0)  continue;
            if (badw < 0)
            {
                badw = w;
                badst = st;
                for (int m = 0; m < W; ++m)
                    if (pids[m] > 0)  kill(pids[m], SIGKILL);
            }
        }
        Stats S;
        if (badw < 0)
        {
            for (int w = 0; w < W; ++w)
            {
                ostringstream fn;
                fn << thescratch << "/stats" << w;
                readStats(S, fn.str());
                unlink(fn.str().c_str());
            }
        }
        else
        {
            uint64_t ci = sh[badw]->caseidx;
            vector<uint64_t> log;
            for (uint64_t i = 0; i < sh[badw]->nlog; ++i)
                log.push_back(uint64_t(sh[badw]->log[i]));
            string msg0 = WIFEXITED(badst) && WEXITSTATUS(badst) == EXIT_FAILCASE ?
                getMsg(sh[badw]) : describeStatus(badst);
            cout << opt.prop << '/' << p.name << ": case " << ci <<
                " failed: " << msg0 << endl;
            // confirm in fresh processes
            ChildResult r;
            int nfail = 0;
            for (int k = 0; k < 3; ++k)
            {
                ChildResult r1 = runForked(p, log);
                if (r1.failed)  { ++nfail; r = r1; }
            }
            string rp;
            if (nfail == 3)
            {
                vector<uint64_t> best = log;
                best = shrink(p, best, r);
                ChildResult fin;
                int again = 0;
                for (int k = 0; k < 3; ++k)
                {
                    ChildResult r1 = runForked(p, best, true);
                    if (r1.failed)  { ++again; fin = r1; }
                }
                if (again < 3)
                {
                    best = log;
                    fin = runForked(p, best, true);
                    if (!fin.failed)  fin.msg = r.msg;
                }
                rp = writeReplay(p, "choices", best, fin.msg, fin.desc);
                cout << "minimal case (" << best.size() << " choices): " <<
                    fin.desc << endl << "failure: " << fin.msg << endl;
            }
            else
            {
                // depends on what ran before in the same process
                vector<uint64_t> seq;
                for (uint64_t i = badw; i <= ci; i += W)  seq.push_back(i);
                string msg;
                int ns = 0;
                for (int k = 0; k < 3; ++k)  ns += runSequence(p, seq, &msg);
                if (ns == 3)
                {
                    for (size_t k = 2; k < seq.size(); k *= 2)
                    {
                        vector<uint64_t> s1(seq.end() - k, seq.end());
                        string m1;
                        if (runSequence(p, s1, &m1) && runSequence(p, s1, &m1))
                        {
                            seq = s1;
                            msg = m1;
                            break;
                        }
                    }
                    rp = writeReplay(p, "cases", seq, msg, "sequence of seeded cases");
                    cout << "failing sequence of " << seq.size() << " cases" << endl;
                }
                else if (nfail + ns > 0)
                {
                    // fails sometimes: the behaviour of the code is not
                    // determined by its input
                    rp = writeReplay(p, "choices", log,
                            "intermittent: " + msg0, "");
                    cout << "intermittent failure reproduced " << nfail + ns <<
                        " times of 6" << endl;
                }
                else
                {
                    flaky = true;
                    cout << "NOTE: failure did not recur in 6 replays, not reported" << endl;
                }
            }
            if (!rp.empty())
            {
                ++violations;
                vlines.push_back("VIOLATION property=" + opt.prop + " replay=" + rp);
            }
        }
        for (int w = 0; w < W; ++w)  munmap(sh[w], sizeof(Shared));
        for (auto& k : S.known)  known.insert(k);
        cout << opt.prop << '/' << p.name << ": " << S.evals << " cases, " <<
            S.distinct.size() << " distinct non-trivial, " << S.discards <<
            " discarded, " << setprecision(3) << now() - tp << " s";
        for (auto& l : S.labels)  cout << "; " << l.first << '=' << l.second;
        cout << endl;
        if (badw < 0 && S.evals == 0)
            harnesserr = "group " + p.name + " generated no valid case";
        all.push_back(make_pair(p.name, S));
    }
    for (auto& k : known)
        cout << "KNOWN-FINDING: property=" << opt.prop << ' ' << k << endl;
    uint64_t evals = 0, distinct = 0;
    ostringstream rule, samples, groups, labels;
    bool first = true, firsts = true;
    for (auto& g : all)
    {
        const Prop* pp = 0;
        for (auto& p : registry())  if (p.name == g.first)  pp = &p;
        evals += g.second.evals;
        distinct += g.second.distinct.size();
        rule << g.first << ": " << pp->rule << " ";
        groups << (first ? "" : ", ") << jsonstr(g.first) <<
            ": {\"evaluations\": " << g.second.evals <<
            ", \"distinct_nontrivial\": " << g.second.distinct.size() <<
            ", \"discarded\": " << g.second.discards << ", \"labels\": {";
        bool fl = true;
        for (auto& l : g.second.labels)
        {
            groups << (fl ? "" : ", ") << jsonstr(l.first) << ": " << l.second;
            fl = false;
        }
        groups << "}}";
        int ns = 0;
        for (auto& s : g.second.samples)
        {
            if (ns++ >= 2)  break;
            samples << (firsts ? "" : ", ") << jsonstr(g.first + ": " + s);
            firsts = false;
        }
        first = false;
    }
    if (!opt.evidence.empty())
    {
        ofstream fp(opt.evidence);
        fp << "{\"property\": " << jsonstr(opt.prop) << ", \"tier\": " <<
            jsonstr(opt.tier) << ", \"seed\": " << opt.seed <<
            ", \"level\": \"exploration\", \"coverage\": {\"evaluations\": " <<
            evals << ", \"distinct_nontrivial\": " << distinct <<
            ", \"rule\": " << jsonstr(rule.str()) << ", \"samples\": [" <<
            samples.str() << "], \"groups\": {" << groups.str() << "}}, " <<
            "\"assumptions\": [" <<
            jsonstr("library rebuilt from /repo with assertions enabled; "
                    "floating-point comparisons use stated tolerances") <<
            "], \"wall_s\": " << now() - t0 << ", \"violations\": " <<
            violations << "}\n";
    }
    if (flaky)  cout << "NOTE: a non-reproducible failure was ignored" << endl;
    for (auto& v : vlines)  cout << v << endl;
    if (violations)  return 1;
    if (!harnesserr.empty())
    {
        cout << "ERROR: " << harnesserr << endl;
        return 2;
    }
    return 0;
}

}   // namespace
}   // namespace vt


int main(int argc, char** argv)
{
    using namespace vt;
    char buf[PATH_MAX];
    ssize_t nb = readlink("/proc/self/exe", buf, sizeof(buf) - 1);
    if (nb > 0)  { buf[nb] = 0; theselfexe = buf; }
    if (argc > 2 && string(argv[1]) == "--helper")
    {
        auto h = helpers().find(argv[2]);
        if (h == helpers().end())  return 3;
        return h->second(argc - 3, argv + 3);
    }
    for (int i = 1; i < argc; ++i)
    {
        string a = argv[i];
        auto val = [&]() -> string { if (i + 1 >= argc) exit(3); return argv[++i]; };
        if (a == "--prop")  opt.prop = val();
        else if (a == "--tier")  opt.tier = val();
        else if (a == "--seed")  opt.seed = strtoull(val().c_str(), 0, 10);
        else if (a == "--evidence")  opt.evidence = val();
        else if (a == "--replaydir")  opt.replaydir = val();
        else if (a == "--replay")  opt.replay = val();
        else if (a == "--only")  opt.only = val();
        else if (a == "--workers")  opt.workers = atoi(val().c_str());
        else if (a == "--scale")  opt.scale = atof(val().c_str());
        else if (a == "--started")  opt.started = atof(val().c_str());
        else if (a == "-v")  opt.verbose = true;
        else if (a == "--list")
        {
            for (auto& p : registry())  cout << p.name << endl;
            return 0;
        }
        else { cerr << "bad option " << a << endl; return 3; }
    }
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
#if !defined(__SANITIZE_ADDRESS__)
    struct rlimit ra = {size_t(3) << 30, size_t(3) << 30};
    setrlimit(RLIMIT_AS, &ra);
#endif
    makeScratch();
    int rc = opt.replay.empty() ? runAll() : doReplay();
    removeScratch();
    cout.flush();
    return rc;
}
