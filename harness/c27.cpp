// C27 Data files and text lines are located and parsed reliably
#include "vt.hpp"
#include <climits>
#include <fstream>
#include <dlfcn.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <diffpy/runtimepath.hpp>
#include <diffpy/srreal/BVParametersTable.hpp>
#include <diffpy/srreal/scatteringfactordata.hpp>

using namespace std;
using vt::Case;
using diffpy::runtimepath::datapath;
using diffpy::runtimepath::LineReader;

namespace {

// private directory of this process with a fixed content
const string& base()
{
    static string rv;
    static pid_t pid = 0;
    if (pid != getpid())
    {
        pid = getpid();
        rv = vt::scratchdir() + "/c27." + vt::str(pid);
        if (mkdir(rv.c_str(), 0755))  vt::fail("harness: cannot create " + rv);
        for (const char* d : {"d0", "d1", "d 2", "d0/sub", "@", "d0/d1"})
            if (mkdir((rv + "/" + d).c_str(), 0755))  vt::fail("harness: cannot create directory");
        ofstream((rv + "/file").c_str()) << "x\n";
        if (symlink("d0/sub", (rv + "/link").c_str()) || symlink("none", (rv + "/broken").c_str()) ||
                symlink("file", (rv + "/flink").c_str()))
            vt::fail("harness: cannot create links");
        char buf[PATH_MAX];
        rv = realpath(rv.c_str(), buf);
    }
    return rv;
}

struct Lookup
{
    bool set;           // is the variable defined
    string value;       // value, relative to the base directory
    string expect;      // physical path, relative to the base directory
    bool ok;
};

}   // namespace


VT_PROP(environment, "at least 2 valid directories and a rejected value", 200000, 3000000)
{
    const string& b = base();
    const vector<Lookup> vals = {
        {true, "/d0", "/d0", true}, {true, "/d1", "/d1", true}, {true, "/d 2", "/d 2", true},
        {true, "/link", "/d0/sub", true}, {true, "/d0/sub", "/d0/sub", true},
        {true, "/d0/../d1", "/d1", true}, {true, "/./d0/.", "/d0", true}, {true, "/d0//sub", "/d0/sub", true},
        {true, "/link/..", "/d0", true}, {true, "/@", "/@", true}, {true, "/d0/d1", "/d0/d1", true},
        {true, "", "", true},
        {true, "/none", "", false}, {true, "/file", "", false}, {true, "/broken", "", false},
        {true, "/flink", "", false}, {true, "/d0/none", "", false}, {true, "/d0x", "", false},
        {true, "/none@x", "", false}, {true, "/d", "", false}, {true, "/d0 ", "", false},
        {false, "", "", false}, {false, "", "", false},
    };
    int n = c.range(1, 8);
    set<string> good;
    bool bad = false;
    static int cnt = 0;
    string later;       // directory that was rejected and created afterwards
    for (int i = 0; i < n; ++i)
    {
        Lookup x = c.pick(vals);
        string v = b + x.value;
        if (c.chance(1, 12))
        {
            // rejected before it exists
            if (later.empty())
            {
                later = "/later" + vt::str(cnt++);
                x = {true, later, "", false};
            }
            else
            {
                mkdir((b + later).c_str(), 0755);
                x = {true, later, later, true};
            }
            v = b + x.value;
        }
        if (x.set)
        {
            if (x.ok)  for (int k = c.chance(1, 3) ? c.range(1, 3) : 0; k; --k)  v += '/';
            setenv("DIFFPYRUNTIME", v.c_str(), 1);
            c.note() << "DIFFPYRUNTIME=" << v.substr(b.size()) << "\n";
        }
        else if (c.flag())
        {
            unsetenv("DIFFPYRUNTIME");
            c.note() << "unset\n";
        }
        else
        {
            setenv("DIFFPYRUNTIME", "", 1);
            c.note() << "empty\n";
        }
        int rep = c.range(1, 3);
        for (int k = 0; k < rep; ++k)
        {
            string f = c.oneof<const char*>({"", "a.dat", "sub/b.dat", "x y"});
            string got;
            bool thrown = false;
            try {
                got = datapath(f);
            }
            catch (runtime_error& e) {
                thrown = true;
                string msg = e.what();
                if (x.set)
                    VT_CHECK(msg.find(v) != string::npos, "error message does not have the path: " << msg);
            }
            if (!x.ok)
            {
                // the test library has no data of its own
                VT_CHECK(thrown, "lookup gives " << got << " for DIFFPYRUNTIME=" << (x.set ? v : string()));
                bad = true;
                continue;
            }
            string e = b + x.expect + (f.empty() ? "" : "/" + f);
            if (thrown)  vt::fail("lookup with DIFFPYRUNTIME=" + v + " was rejected");
            if (got != e)  vt::fail("lookup of '" + f + "' with DIFFPYRUNTIME=" + v + " gives " + got + ", expected " + e);
            good.insert(x.expect);
        }
    }
    if (bad && good.size() > 1)  c.nontrivial();
}


namespace {

// Run a list of lookups and print the results.  Arguments are "=value", "-",
// or a name of a file to be found.
int lookups(int argc, char** argv)
{
    ofstream out(argv[0]);
    for (int i = 1; i < argc; ++i)
    {
        string a = argv[i];
        if (a[0] == '=')  setenv("DIFFPYRUNTIME", a.c_str() + 1, 1);
        else if (a == "-")  unsetenv("DIFFPYRUNTIME");
        else if (a[0] == '+')
        {
            double x = 0;
            try {
                string tb = a.substr(1);
                using namespace diffpy::srreal;
                if (tb == "bv")  x = BVParametersTable().lookup("Na", 1, "Cl", -1).mRo;
                if (tb == "xray")  x = fxrayatq("C", 0);
                if (tb == "neutron")  x = bcneutron("C");
                if (tb == "electrons")  x = electronnumber("Na1+");
                out << "VALUE " << x << endl;
            }
            catch (exception& e) {
                out << "ERROR" << endl;
            }
        }
        else
        {
            try {
                string p = datapath(a.substr(1));
                out << "PATH " << p << endl;
            }
            catch (runtime_error& e) {
                out << "ERROR" << endl;
            }
        }
    }
    return 0;
}

vt::RegHelper reglookups("lookups", lookups);

string libraryfile()
{
    Dl_info i;
    if (!dladdr(reinterpret_cast<void*>(&datapath), &i))  vt::fail("harness: no library");
    // the address may belong to the executable
    char buf[PATH_MAX];
    string exe = vt::selfexe();
    string lib = exe.substr(0, exe.rfind('/')) + "/libdiffpy.so";
    if (!realpath(lib.c_str(), buf))  vt::fail("harness: cannot find " + lib);
    return buf;
}

// directory of the data from the source tree
const string& realdata()
{
    static string rv = getenv("DIFFPYRUNTIME") ? getenv("DIFFPYRUNTIME") : "";
    return rv;
}
// the variable is changed by the checks, keep the original value
const string& realdata0 = realdata();

void sh(const string& cmd)
{
    if (system(cmd.c_str()))  vt::fail("harness: failed " + cmd);
}

// create a directory with all of its parents below the base directory
void mkdirs(const string& d)
{
    for (size_t p = base().size(); p != string::npos; )
    {
        p = d.find('/', p + 1);
        mkdir(d.substr(0, p).c_str(), 0755);
    }
    struct stat sb;
    if (stat(d.c_str(), &sb))  vt::fail("harness: cannot create " + d);
}

}   // namespace


// The library built for the checks has its relative data path defined as
// ../../../nonexistent.
VT_PROP(library, "data of the library used before or after the variable is set", 2500, 40000)
{
    const string& b = base();
    string lib = b + "/libdiffpy.so";
    struct stat sb;
    if (stat(lib.c_str(), &sb))  sh("cp '" + libraryfile() + "' '" + lib + "'");
    string root = b + "/layout";
    // remains of a failed case
    if (!stat(root.c_str(), &sb))  sh("rm -rf '" + root + "'");
    for (const char* d : {"/a/b/c", "/p/build/x", "/q/v/w", "/env", "/env2", "/empty", "/bad"})
        mkdirs(root + d);
    // physical location of the library
    int where = c.below(4);
    bool d1 = c.flag();     // relative data path exists
    bool d2 = c.flag();     // source tree exists
    string dir = where == 0 ? root + "/a/b/c" : where == 1 ? root + "/p/build/x" : root + "/q/v/w";
    string r1, r2;
    if (where < 2)
    {
        if (link(lib.c_str(), (dir + "/libdiffpy.so").c_str()))  vt::fail("harness: link");
        r1 = dir + "/../../../nonexistent";
        r2 = dir + "/../../src/runtime";
    }
    else
    {
        // loaded by a symbolic link from another directory
        string phys = root + "/p/build/x/libdiffpy.so";
        if (link(lib.c_str(), phys.c_str()) || symlink(phys.c_str(), (dir + "/libdiffpy.so").c_str()))
            vt::fail("harness: link");
        r1 = dir + "/../../../nonexistent";
        r2 = root + "/p/build/x/../../src/runtime";
        if (where == 3)  c.label("library link");
    }
    if (d1)  mkdirs(r1);
    if (d2)  mkdirs(r2);
    char buf[PATH_MAX];
    string own = d1 ? realpath(r1.c_str(), buf) : d2 ? realpath(r2.c_str(), buf) : "";
    c.note() << "library in " << dir.substr(root.size()) << (where > 1 ? " (link)" : "") << " relative data " << d1 << " source tree " << d2 << "\n";
    // data files with different content
    const string real = realdata();
    auto content = [&](const string& d, double x, bool valid) {
        ofstream((d + "/bvparm2011sel.cif").c_str()) << "_valence_param_B\n_valence_param_details\n\n" <<
            "Na 1 O -2 1.8 0.37 a ?\n" << (valid ? "" : "Na 1 F\n") <<
            "Na 1 Cl -1 " << x << " 0.37 a ?\n";
        ofstream((d + "/f0_WaasKirf.dat").c_str()) << "#S 6 C\n#L x\n" << x <<
            (valid ? " 0 0 0 0 0 0 0 0 0 0\n" : " 0\n");
        ofstream nsf((d + "/nsftable.dat").c_str());
        for (string el : {"0-n-1", "1-H-2", "1-H-3", "6-C"})
        {
            nsf << el << ",x,0," << (el == "6-C" ? x : 1.5) << ",0,0,0,0,0,0,x\n";
            if (!valid)  nsf << "1-H-1,0\n";
        }
        nsf.close();
        // every sodium ion has 11 electrons in the modified file
        ifstream in((real + "/ionlist.dat").c_str());
        ofstream out((d + "/ionlist.dat").c_str());
        for (string l; getline(in, l); )
        {
            if (l.substr(0, 3) == "Na " || l.substr(0, 3) == "Na\t")
                l = "Na " + vt::str(int(x * 8) + 1) + " 1 -1";
            out << l << "\n";
            if (!valid && out.tellp() > 600)  break;
        }
    };
    map<string, double> values;
    content(root + "/env", values[root + "/env"] = 1.625, true);
    content(root + "/env2", values[root + "/env2"] = 3.5, true);
    content(root + "/bad", 4.5, false);
    if (!own.empty())  content(own, values[own] = 2.25, true);
    vector<string> args = {"lookups"}, expect;
    string out = b + "/layout.out";
    args.push_back(out);
    string env;
    bool isset = false;
    int n = c.range(1, 10);
    map<string, double> loaded;
    bool ownused = false, envused = false;
    for (int i = 0; i < n; ++i)
    {
        switch (c.below(3))
        {
            case 0:
                env = root + c.oneof<const char*>({"/env", "/none", "/env2", "/bad", "/empty", "/f"});
                args.push_back("=" + env);
                isset = true;
                break;
            case 1:
                args.push_back(c.flag() ? "-" : "=");
                isset = false;
                break;
        }
        string e = env.substr(env.rfind('/') + 1);
        string d = !isset ? own : e == "none" || e == "f" ? "" : env;
        c.note() << (isset ? "env " + e : "own") << " lookup ";
        if (c.chance(2, 3))
        {
            string tb = c.oneof<const char*>({"bv", "xray", "neutron", "electrons"});
            args.push_back("+" + tb);
            c.note() << tb << "\n";
            // content of a file is loaded once.  Failure has no effect.
            if (!loaded.count(tb) && values.count(d))  loaded[tb] = values[d];
            if (loaded.count(tb))
                expect.push_back("VALUE " + vt::str(tb == "electrons" ? int(loaded[tb] * 8) : loaded[tb]));
            else
            {
                expect.push_back("ERROR");
                c.label("failed load");
            }
        }
        else
        {
            args.push_back("/x.dat");
            expect.push_back(d.empty() ? "ERROR" : "PATH " + d + "/x.dat");
            c.note() << "path\n";
        }
        (isset ? envused : ownused) = true;
    }
    remove(out.c_str());
    pid_t pid = fork();
    if (pid == 0)
    {
        vector<char*> av;
        string exe = vt::selfexe(), h = "--helper";
        av.push_back(&exe[0]);
        av.push_back(&h[0]);
        for (auto& a : args)  av.push_back(&a[0]);
        av.push_back(0);
        setenv("LD_LIBRARY_PATH", dir.c_str(), 1);
        unsetenv("DIFFPYRUNTIME");
        execv(exe.c_str(), &av[0]);
        _exit(9);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    ifstream in(out.c_str());
    vector<string> got;
    for (string s; getline(in, s); )  got.push_back(s);
    sh("rm -rf '" + root + "'");
    if (!WIFEXITED(st) || WEXITSTATUS(st))  vt::fail("lookup process failed, status " + vt::str(st));
    VT_CHECK(got == expect, "lookups are " << vt::strv(got) << " expected " << vt::strv(expect));
    if (!own.empty() && ownused && envused)  c.nontrivial();
    c.label(d1 ? "relative data path" : d2 ? "source tree" : "no data");
}


VT_PROP(lines, "at least 3 words and 2 lines", 300000, 6000000)
{
    LineReader lr;
    VT_CHECK(lr.lineno == 0 && lr.commentmark == "#" && lr.separator.empty() && lr.wcount() == 0, "defaults");
    string alphabet = c.oneof<const char*>({"a #\n", "ab,#\t \n\r", "#%,; \n", "x\n,,", "\v\f\t \r\nw#", "a1-+.\n ,"});
    int len = c.range(0, 40);
    string text;
    for (int i = 0; i < len; ++i)  text += alphabet[c.below(alphabet.size())];
    string sep = c.chance(1, 3) ? string(c.oneof<const char*>({",", ";", "\t", " ", "#"})) : "";
    string mark = "#";
    lr.separator = sep;
    if (c.chance(1, 3))  lr.commentmark = mark = c.oneof<const char*>({"", "##", "a", "//", ",", "#a"});
    istringstream in(text);
    // expected lines
    vector<string> lines;
    {
        string cur;
        for (char x : text)
        {
            if (x == '\n')
            {
                lines.push_back(cur);
                cur.clear();
            }
            else  cur += x;
        }
        if (!cur.empty())  lines.push_back(cur);
    }
    int nw = 0;
    for (size_t i = 0; i < lines.size(); ++i)
    {
        if (c.chance(1, 6))
        {
            lr.separator = sep = c.oneof<const char*>({"", ",", " "});
            lr.commentmark = mark = c.oneof<const char*>({"#", "a", ""});
        }
        const string& s = lines[i];
        vector<string> words;
        if (sep.empty())
        {
            string w;
            for (char x : s + " ")
            {
                if (!strchr(" \t\r\v\f", x) || !x)  w += x;
                else if (!w.empty())
                {
                    words.push_back(w);
                    w.clear();
                }
            }
        }
        else
        {
            string w;
            for (char x : s)
            {
                if (x == sep[0])
                {
                    words.push_back(w);
                    w.clear();
                }
                else  w += x;
            }
            // trailing empty field is not counted
            if (!w.empty())  words.push_back(w);
        }
        bool ok = bool(in >> lr);
        VT_CHECK(ok, "cannot read line " << i + 1);
        VT_CHECK(lr.lineno == int(i) + 1, "line number " << lr.lineno << ", expected " << i + 1);
        VT_CHECK(lr.line == s, "line " << lr.line << " expected " << s);
        if (lr.words != words)
            vt::fail("line '" + s + "' separator '" + sep + "' has words " + vt::strv(lr.words) + ", expected " + vt::strv(words));
        bool blank = words.empty();
        bool comment = !blank && !mark.empty() && words[0].substr(0, mark.size()) == mark;
        VT_CHECK(lr.wcount() == words.size(), "number of words");
        VT_CHECK(lr.isblank() == blank, "isblank for '" << s << "'");
        VT_CHECK(lr.iscomment() == comment, "iscomment for '" << s << "' with comment mark '" << mark << "'");
        VT_CHECK(lr.isignored() == (blank || comment), "isignored for '" << s << "'");
        nw += words.size();
        if (c.chance(1, 10))
        {
            string e = lr.format_error("some.dat", "extra detail").what();
            VT_CHECK(e.find("some.dat") != string::npos && e.find("line " + vt::str(i + 1)) != string::npos &&
                    e.find("extra detail") != string::npos, "error message " << e);
        }
    }
    bool more = bool(in >> lr);
    VT_CHECK(!more, "line after the end of text");
    VT_CHECK(lr.lineno == int(lines.size()), "line number at the end");
    c.note() << text;
    if (nw > 2 && lines.size() > 1)  c.nontrivial();
}


namespace {

// Look up values and print them or the error message.
int tables(int argc, char** argv)
{
    using namespace diffpy::srreal;
    ofstream out(argv[0]);
    out.precision(17);
    for (int i = 1; i < argc; ++i)
    {
        string a = argv[i];
        if (a[0] == '=')
        {
            setenv("DIFFPYRUNTIME", a.c_str() + 1, 1);
            continue;
        }
        istringstream in(a);
        string tb, s, s1;
        double x = 0;
        int v0, v1;
        in >> tb >> s;
        try {
            double y = 0;
            if (tb == "xray" && in >> x)  y = fxrayatq(s, x);
            if (tb == "electrons")  y = electronnumber(s);
            if (tb == "neutron")  y = bcneutron(s);
            if (tb != "bv")  out << "VALUE " << y << endl;
            if (tb == "bv" && in >> v0 >> s1 >> v1)
            {
                const BVParam& b = BVParametersTable().lookup(s, v0, s1, v1);
                out << "VALUE " << b.mRo << " " << b.mB << endl;
            }
        }
        catch (exception& e) {
            string w = e.what();
            for (char& ch : w)  if (ch == '\n')  ch = ' ';
            out << "ERROR " << (dynamic_cast<runtime_error*>(&e) ? "runtime " :
                    dynamic_cast<invalid_argument*>(&e) ? "invalid " : "other ") << w << endl;
        }
    }
    return 0;
}

vt::RegHelper regtables("tables", tables);

// Text file with comments and empty lines at random places
struct TextFile
{
    Case& c;
    vector<string> lines;
    bool indent;    // ignored lines may start with spaces
    TextFile(Case& cc, bool ind=true) : c(cc), indent(ind)  { }

    int add(const string& s)
    {
        if (c.chance(1, 8))
        {
            string t = c.oneof<const char*>({"", "# comment", "#", "#C 1 2 3", "#x,y"});
            lines.push_back((indent && c.chance(1, 3) ? "  " : "") + t);
        }
        lines.push_back(s);
        return lines.size();
    }

    void save(const string& f, bool finish=true) const
    {
        ofstream out(f.c_str());
        for (size_t i = 0; i < lines.size(); ++i)
            out << (i ? "\n" : "") << lines[i];
        if (finish)  out << "\n";
    }
};

struct Query { string text; vector<double> expect; };    // unknown when empty

string num(double x)
{
    ostringstream o;
    o.precision(17);
    o << x;
    return o.str();
}

// Write a random table.  When bad, damage one place and return its line,
// or -1 for damage that is not related to a line.
int writeTable(Case& c, const string& tb, const string& dir, bool bad, vector<Query>& qs)
{
    int badline = 0;
    if (tb == "xray")
    {
        TextFile f(c);
        vector<string> smbls = {"C", "O", "Na", "Na1+", "O1-", "Fe", "Fe3+", "Zr"};
        vector<int> perm = c.permutation(smbls.size());
        int n = c.range(1, 8);
        int kb = bad ? int(c.below(n)) : -1, how = c.below(6);
        if (kb == 0 && how == 4)  how = 2;
        f.add("#F file");
        for (int k = 0; k < n; ++k)
        {
            string s = smbls[perm[k]];
            if (k == kb && how == 4)  s = smbls[perm[c.below(k)]];
            vector<double> v;
            for (int i = 0; i < 11; ++i)  v.push_back(i < 6 ? c.real(-2, 9) : c.real(0, 60));
            int l = 0;
            if (!(k == kb && how == 1))
                l = f.add(k == kb && how == 0 ? "#S  6" : "#S  6  " + s);
            if (k == kb && how == 0)  badline = l;
            if (c.flag())  f.add("#N 11");
            l = f.add("#L a1  a2  a3  a4  a5  c  b1  b2  b3  b4  b5");
            if (k == kb && how == 1)  badline = l;
            string t;
            int drop = k == kb && how == 2 ? c.below(11) : -1, junk = k == kb && how == 3 ? c.below(11) : -1;
            for (int i = 0; i < 11; ++i)
                if (i != drop)  t += " " + (i == junk ? string("x1.5") : num(v[i]));
            if (k == kb && how == 5)  t += " 1.5";
            // the values follow directly
            f.lines.push_back(t);
            if (k == kb && how >= 2)  badline = f.lines.size();
            double q = c.oneof({0.0, 1.5, 12.0, 30.0});
            double st = q / (4 * M_PI), e = v[5];
            for (int i = 0; i < 5; ++i)  e += v[i] * exp(-v[6 + i] * st * st);
            qs.push_back({"xray " + s + " " + num(q), {e}});
        }
        qs.push_back({"xray Kr 1", {}});
        f.save(dir + "/f0_WaasKirf.dat", c.flag());
    }
    if (tb == "electrons")
    {
        TextFile f(c);
        ifstream in((realdata() + "/ionlist.dat").c_str());
        vector<string> rows;
        for (string s; getline(in, s); )  if (!s.empty() && s[0] != '#')  rows.push_back(s);
        if (c.flag())
        {
            vector<int> perm = c.permutation(rows.size());
            vector<string> r1;
            for (int i : perm)  r1.push_back(rows[i]);
            rows.swap(r1);
        }
        int n = rows.size();
        int kb = bad ? int(c.below(n)) : -1, how = c.below(3);
        if (how == 2 && kb < 1)  how = 0;
        set<int> ask = {int(c.below(n)), int(c.below(n)), int(c.below(n))};
        for (int k = 0; k < n; ++k)
        {
            istringstream w(rows[k]);
            string el;
            int z, v;
            w >> el >> z;
            int shift = c.chance(1, 10) ? c.range(1, 5) : 0;
            string t = el + " " + vt::str(z + shift);
            if (ask.count(k))  qs.push_back({"electrons " + el, {double(z + shift)}});
            while (w >> v)
            {
                t += (v > 0 ? " +" : " ") + vt::str(v);
                if (ask.count(k))
                    qs.push_back({"electrons " + el + vt::str(abs(v)) + (v > 0 ? "+" : "-"), {double(z + shift - v)}});
            }
            if (k == kb && how == 0)  t = el;
            if (k == kb && how == 1)  t = el + " x";
            int l = f.add(t);
            if (k == kb && how < 2)  badline = l;
            if (k == kb && how == 2)
            {
                f.lines.pop_back();
                break;
            }
        }
        if (bad && how == 2)  badline = f.lines.size();
        qs.push_back({"electrons Qq", {}});
        f.save(dir + "/ionlist.dat", true);
    }
    if (tb == "neutron")
    {
        TextFile f(c, false);
        struct Row { string id, chlf; bool hasb; double b; };
        vector<vector<Row> > groups = {
            {{"0-n-1", "618 S", true, 0}},
            {{"1-H", "", true, 0}, {"1-H-1", "99.985", true, 0}, {"1-H-2", "0.0149", true, 0}, {"1-H-3", "12.26 Y", true, 0}},
            {{"6-C", "", true, 0}, {"6-C-12", "98.89", true, 0}, {"6-C-13", "1.11", true, 0}},
            {{"9-F-19", "100", true, 0}},
            {{"43-Tc-98", "4.2E6 Y", false, 0}, {"43-Tc-99", "2.1E5 Y", true, 0}, {"43-Tc-100", "1.1E5 Y", true, 0}},
            {{"8-O", "", true, 0}, {"8-O-16", "99.75", true, 0}, {"8-O-17", "0.039", false, 0}}};
        vector<int> perm = c.permutation(groups.size());
        vector<Row> rows;
        for (int g : perm)  for (Row r : groups[g])  rows.push_back(r);
        for (Row& r : rows)  r.b = c.real(-9, 15);
        int n = rows.size();
        int kb = bad ? int(c.below(n)) : -1, how = c.below(6);
        if (bad && how == 2)
            while (!rows[kb].hasb)  kb = (kb + 1) % n;
        if (bad && how == 3)
            while (!kb || !rows[kb - 1].hasb)  kb = (kb + 1) % n;
        map<string, double> ref;
        f.add("# Z-Symbol-A, abundance, spin, b_c");
        for (int k = 0; k < n; ++k)
        {
            Row r = rows[k];
            if (k == kb && how == 1)  r = {c.oneof<const char*>({"12", "12-", "-", "1-2"}), "", true, 1.0};
            if (k == kb && how == 3)  r = rows[k - 1];
            string t = r.id + "," + r.chlf + ",1/2," + (r.hasb ? num(r.b) : "") + ",1,2,3,4,5,6,x";
            if (k == kb && how == 0)  t = r.id + "," + r.chlf + ",1/2," + num(r.b) + ",1,2,3,4,5,6";
            if (k == kb && how == 4)  t += ",x";
            if (k == kb && how == 2)  t = r.id + "," + r.chlf + ",1/2,b" + num(r.b) + ",1,2,3,4,5,6,x";
            if (k == kb && how == 5)
            {
                // the only isotope of an element that is already listed
                f.add("6-Xe,,0,1.5,1,2,3,4,5,6,x");
                t = "6-Xe-7,100,0,1.5,1,2,3,4,5,6,x";
            }
            int l = f.add(t);
            if (k == kb)  badline = l;
            if (!r.hasb)  continue;
            size_t p = r.id.find('-'), p2 = r.id.find('-', p + 1);
            string el = r.id.substr(p + 1, p2 == string::npos ? p2 : p2 - p - 1);
            if (p2 == string::npos)  ref[el] = r.b;
            else
            {
                ref[r.id.substr(p2 + 1) + "-" + el] = r.b;
                bool year = !r.chlf.empty() && r.chlf[r.chlf.size() - 1] == 'Y';
                if (r.chlf == "100" || (year && !ref.count(el)))  ref[el] = r.b;
            }
        }
        ref["n"] = ref["1-n"];
        ref["D"] = ref["2-H"];
        ref["T"] = ref["3-H"];
        for (auto& kv : ref)
        {
            qs.push_back({"neutron " + kv.first, {kv.second}});
            if (c.chance(1, 4))  qs.push_back({"neutron " + kv.first + c.oneof<const char*>({"+", "2-", "1+", "4+"}), {kv.second}});
        }
        qs.push_back({"neutron 17-O", {}});
        qs.push_back({"neutron 98-Tc", {}});
        qs.push_back({"neutron Kr", {}});
        f.save(dir + "/nsftable.dat", c.flag());
    }
    if (tb == "bv")
    {
        TextFile f(c);
        f.add("# header 1 2 3");
        f.add("loop_");
        f.lines.push_back("_valence_param_B");
        for (int i = c.below(3); i > 0; --i)  f.lines.push_back("_valence_param_details");
        f.lines.push_back("");
        int n = c.range(1, 8);
        int kb = bad ? int(c.below(n)) : -1;
        vector<string> cat = {"Na", "Ti", "Fe", "Zr"}, an = {"O", "Cl", "F", "N"};
        set<string> used;
        for (int k = 0; k < n; ++k)
        {
            string a = c.pick(cat), b = c.pick(an);
            int v0 = c.range(1, 4), v1 = -c.range(1, 3);
            string key = a + " " + vt::str(v0) + " " + b + " " + vt::str(v1);
            if (!used.insert(key).second && k != kb)  continue;
            double ro = c.real(1, 3), bb = c.real(0.2, 0.5);
            string t = key + "  " + num(ro) + "  " + num(bb) + " a ?";
            if (k == kb)
            {
                t = c.oneof<const char*>({"Na 1 O", "Na x O -2 1.8 0.37 a ?", "Na 1 O -2 1.8", "Na", "Na 1 O -2 1.8 0.37"});
                badline = -1;
            }
            f.add(t);
            qs.push_back({"bv " + key, {ro, bb}});
            if (c.flag())  qs.push_back({"bv " + b + " " + vt::str(v1) + " " + a + " " + vt::str(v0), {ro, bb}});
        }
        f.save(dir + "/bvparm2011sel.cif", c.flag());
    }
    return badline;
}

}   // namespace


VT_PROP(datafiles, "a damaged file was refused and a good one used later in the same process", 4000, 60000)
{
    string root = base() + "/tables";
    for (const char* d : {"/good", "/bad"})  mkdirs(root + d);
    string tb = c.oneof<const char*>({"xray", "electrons", "neutron", "bv"});
    vector<Query> qs, bq;
    bool bad = c.chance(2, 3);
    int badline = 0;
    const char* fname = tb == "xray" ? "f0_WaasKirf.dat" : tb == "electrons" ? "ionlist.dat" :
        tb == "neutron" ? "nsftable.dat" : "bvparm2011sel.cif";
    if (bad)  badline = writeTable(c, tb, root + "/bad", true, bq);
    writeTable(c, tb, root + "/good", false, qs);
    string out = root + "/out";
    vector<string> args = {"tables", out};
    int nbad = bad ? c.range(1, 2) : 0;
    if (bad)  args.push_back("=" + root + "/bad");
    for (int i = 0; i < nbad; ++i)  args.push_back(c.pick(bq).text);
    args.push_back("=" + root + "/good");
    for (auto& q : qs)  args.push_back(q.text);
    // the first data are kept
    args.push_back("=" + root + (bad ? "/bad" : "/nothing"));
    args.push_back(qs[0].text);
    c.note() << tb << (bad ? " damaged line " : " good ") << badline << "\n";
    if (bad)
    {
        ifstream in((root + "/bad/" + fname).c_str());
        int n = 0;
        for (string s; getline(in, s); )
            if (++n == badline || badline < 0)  c.note() << s << "\n";
    }
    remove(out.c_str());
    pid_t pid = fork();
    if (pid == 0)
    {
        vector<char*> av;
        string exe = vt::selfexe(), h = "--helper";
        av.push_back(&exe[0]);
        av.push_back(&h[0]);
        for (auto& a : args)  av.push_back(&a[0]);
        av.push_back(0);
        execv(exe.c_str(), &av[0]);
        _exit(9);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    ifstream in(out.c_str());
    vector<string> got;
    for (string s; getline(in, s); )  got.push_back(s);
    if (!WIFEXITED(st) || WEXITSTATUS(st))  vt::fail("lookup process failed, status " + vt::str(st));
    VT_CHECK(got.size() == nbad + qs.size() + 1, "number of answers " << got.size());
    for (int i = 0; i < nbad; ++i)
    {
        const string& g = got[i];
        if (g.substr(0, 5) != "ERROR")  vt::fail("damaged file was accepted: " + g);
        if (badline > 0)
        {
            string e = string(fname) + " line " + vt::str(badline) + ".";
            if (g.find(e) == string::npos)  vt::fail("error message '" + g + "' does not have '" + e + "'");
            VT_CHECK(g.substr(6, 7) == "runtime", "type of exception for " << g);
        }
    }
    qs.push_back(qs[0]);
    for (size_t i = 0; i < qs.size(); ++i)
    {
        const string& g = got[nbad + i];
        if (qs[i].expect.empty())
        {
            if (g.substr(0, 13) != "ERROR invalid")  vt::fail(qs[i].text + " gives " + g);
            continue;
        }
        if (g.substr(0, 5) != "VALUE")  vt::fail(qs[i].text + " gives " + g);
        istringstream v(g.substr(6));
        for (double e : qs[i].expect)
        {
            double x;
            VT_CHECK(bool(v >> x), "missing value");
            vt::checkClose(qs[i].text, x, e, 1e-12, 1e-12);
        }
    }
    c.label(tb);
    if (bad)  c.label("damaged " + tb), c.nontrivial();
}
