/* Text, ini, XML and GEDCOM files; configuration and options */
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cmath>
#include <set>
#include <getopt.h>

#include <lube/config.h>
#include <lube/data.h>
#include "modules.h"

using namespace modules;

// --- C31 Text and ini files, and configuration

PROPERTY(C31, text, 20000,
         "text files of up to 40 lines of up to 200 bytes, with and without a "
         "last line end, are read as their lines; arrays of up to 40 numbers "
         "and texts are written one a line; non-trivial if 2 or more lines")
{
    std::string name = in("text.txt");
    Handler f("txt");
    std::vector<std::string> l;
    bool write = g.rare(3);
    std::string doc, want;
    int n = g.wide(40, 400);
    if (write)
    {
        var v;
        // An array of vars, rather than of the type of the first element
        v[0] = lu::nil;
        v.pop();
        for (int i=0; i<n; i++)
        {
            var e;
            std::string s;
            if (g.flip())
            {
                int k = g.range(-1000, 1000);
                e = k;
                s = std::to_string(k);
            }
            else
            {
                std::string t = line(g, 30);
                e = mk(t);
                s = "\"" + t + "\"";
            }
            v.push(e);
            want += s + "\n";
            g.trace << s << ";";
        }
        if (g.rare(3))
        {
            // An array goes to an ini file in the same way
            Handler i("ini");
            i.write(name, v);
        }
        else
            f.write(name, v);
        EXPECT_EQ(pbt::quote(slurp(name)), pbt::quote(want), "file");
        g.nontrivial(n > 1);
        return;
    }
    for (int i=0; i<n; i++)
    {
        std::string s = line(g, g.rare(5) ? 200 : 20, "\t\"=[];#\\");
        if (g.rare(8))
            s += std::string(61 + g.below(5), 'x');
        l.push_back(s);
        doc += s;
        if (i < n-1 || s.empty() || g.flip())
            doc += "\n";
    }
    spit(name, doc);
    g.trace << pbt::quote(doc);
    want = n ? "[" : "nil";
    for (int i=0; i<n; i++)
        want += (i ? ", " : "") + pbt::quote(l[i]);
    want += n ? "]" : "";
    var v = f.read(name);
    EXPECT_EQ(canon(v), want, "read");
    g.nontrivial(n > 1);
}

typedef std::map<std::string, std::map<std::string, std::string>> Ini;

static std::string ws(pbt::Gen& g)
{
    std::string s;
    while (g.rare(3))
        s += g.flip() ? ' ' : '\t';
    return s;
}

static std::string show(const Ini& ini)
{
    if (ini.empty())
        return "nil";
    std::string s = "{";
    for (auto& x : ini)
    {
        s += (s.size() > 1 ? ", " : "") + pbt::quote(x.first) + ": {";
        bool first = true;
        for (auto& y : x.second)
        {
            s += (first ? "" : ", ") + pbt::quote(y.first) + ": "
                + pbt::quote(y.second);
            first = false;
        }
        s += "}";
    }
    return s + "}";
}

/** The text of an ini file, with what it should mean */
static std::string genIni(pbt::Gen& g, Ini& ini,
                          const std::vector<std::string>& sections,
                          bool number, bool* bad)
{
    std::string doc;
    std::string section = "";
    int n = g.wide(25, 200);
    // In case nothing comes before the first section
    if (!sections.empty() && sections[0] != "")
    {
        section = sections[0];
        doc += "[" + section + "]\n";
    }
    for (int i=0; i<n; i++)
    {
        std::string l = ws(g);
        switch (g.weighted({8, 3, 2, 2, 1}))
        {
        case 0:
        {
            std::string k = number ? std::string(1, 'a' + g.below(6))
                : strip(line(g, 8, "._-[];#"));
            if (k.empty() || std::string("[;#").find(k[0]) != std::string::npos)
                k = "k" + k;
            std::string v;
            if (number)
                switch (g.below(3))
                {
                case 0: v = std::to_string(g.range(-1000, 1000)); break;
                case 1: v = std::to_string(g.range(-1000, 1000)) + "."
                        + std::to_string(g.below(1000)); break;
                case 2: v = "t" + strip(line(g, 8)); break;
                }
            else if (g.flip())
                v = strip(line(g, 20, "=:;#[]\"'\\,"));
            else
                v = strip(line(g, 20));
            bool colon = v.find('=') == std::string::npos && g.flip();
            if (!colon && !number && g.rare(4))
                k += ":x";
            l += k + ws(g) + (colon ? ":" : "=") + ws(g) + v + ws(g);
            ini[section][k] = v;
            break;
        }
        case 1:
            if (sections.empty() || g.flip())
                section = number ? section : strip(line(g, 8, ".=:;#"));
            else
                section = g.pick(sections);
            l += "[" + section + "]";
            if (g.rare(4))
                l += ws(g) + "; " + line(g, 8, "]=");
            break;
        case 2:
            l += (g.flip() ? ";" : "#") + line(g, 20, "=[]:");
            break;
        case 3:
            break;
        case 4:
            if (bad && g.rare(8))
            {
                // Neither one thing nor the other
                l += g.flip() ? "[" + strip(line(g, 8, "=:"))
                    : "x" + strip(line(g, 8));
                *bad = true;
            }
            break;
        }
        if (g.rare(10))
            l += "\r";
        doc += l;
        if (i < n-1 || g.flip())
            doc += "\n";
    }
    return doc;
}

PROPERTY(C31, ini, 40000,
         "ini files of up to 25 lines of sections, keys and values separated "
         "by = or :, comments, blank lines and stray white space; lines that "
         "are none of those are refused; non-trivial if 2 or more entries")
{
    Ini ini;
    bool bad = false;
    std::string doc = genIni(g, ini, {}, false, &bad);
    std::string name = in("x.ini");
    spit(name, doc);
    g.trace << pbt::quote(doc);
    Handler f("ini");
    g.label(bad, "refused");
    if (bad)
    {
        bool threw = throws([&] { var v = f.read(name); });
        EXPECT(threw, "malformed file read");
        return;
    }
    var v = f.read(name);
    EXPECT_EQ(canon(v), show(ini), "read");
    int n = 0;
    for (auto& x : ini)
        n += (int)x.second.size();
    g.nontrivial(n > 1);
    g.label(ini.size() > 1, "sections");
}

PROPERTY_NOLEAK(C31, config, 8000,
                "up to 12 steps on two configured objects that read files, "
                "set and look up entries of up to 3 sections with defaults of "
                "each type, against maps; non-trivial if an entry that was "
                "replaced is looked up")
{
    // The configuration is global, so use sections that are not used yet
    static int serial = 0;
    std::vector<std::string> sec;
    for (int i=0; i<3; i++)
        sec.push_back("s" + std::to_string(serial++));
    Ini m;
    std::string at[2] = {sec[0], sec[1]};
    lu::Config c[2] = {lu::Config(mk(sec[0])), lu::Config(mk(sec[1]))};
    std::set<std::string> replaced;
    for (int n=1+g.below(12); n>0; n--)
    {
        int w = g.below(2);
        switch (g.weighted({3, 3, 6, 1}))
        {
        case 0:
        {
            Ini ini;
            bool bad = false;
            std::string doc = genIni(g, ini, sec, true, &bad);
            std::string name = in("config.ini");
            spit(name, doc);
            g.trace << "file " << pbt::quote(doc) << "; ";
            bool threw = throws([&] { c[w].configFile(mk(name)); });
            EXPECT_EQ(threw, bad, "refused");
            if (!threw)
                for (auto& x : ini)
                    for (auto& y : x.second)
                    {
                        if (m[x.first].count(y.first))
                            replaced.insert(x.first + y.first);
                        m[x.first][y.first] = y.second;
                    }
            break;
        }
        case 1:
        {
            std::string k(1, 'a' + g.below(6));
            std::string v = std::to_string(g.range(-1000, 1000));
            g.trace << at[w] << "." << k << "=" << v << "; ";
            c[w].configSet(mk(k), mk(v));
            if (m[at[w]].count(k))
                replaced.insert(at[w] + k);
            m[at[w]][k] = v;
            break;
        }
        case 2:
        {
            std::string k(1, 'a' + g.below(6));
            bool has = m[at[w]].count(k);
            std::string v = has ? m[at[w]][k] : "";
            bool text = has && v[0] == 't';
            g.trace << at[w] << "." << k << "?; ";
            EXPECT_EQ(canon(c[w].config(mk(k))), has ? pbt::quote(v)
                      : std::string("nil"), "entry");
            EXPECT_EQ(std::string(c[w].config(mk(k), "default")),
                      has ? v : std::string("default"), "text entry");
            if (text)
                break;
            EXPECT_EQ(c[w].config(mk(k), 7.5), has ? std::stod(v) : 7.5,
                      "double entry");
            EXPECT_EQ(c[w].config(mk(k), 7.5f),
                      has ? (float)std::stof(v) : 7.5f, "float entry");
            if (v.find('.') != std::string::npos)
                break;
            EXPECT_EQ(c[w].config(mk(k), 7), has ? std::stoi(v) : 7,
                      "int entry");
            EXPECT_EQ(c[w].config(mk(k), 7l), has ? std::stol(v) : 7l,
                      "long entry");
            if (has && replaced.count(at[w] + k))
                g.nontrivial();
            break;
        }
        case 3:
            at[w] = g.pick(sec);
            g.trace << "section " << at[w] << "; ";
            c[w].configSection(mk(at[w]));
            break;
        }
    }
}

// --- C32 Command line options

struct Argv
{
    std::vector<std::string> s;
    std::vector<char*> p;
    explicit Argv(const std::vector<std::string>& iS) : s(iS)
    {
        for (auto& x : s)
            p.push_back(&x[0]);
        p.push_back(nullptr);
    }
    int argc() const { return (int)s.size(); }
    char** argv() { return p.data(); }
};

struct Opts
{
    std::map<char, bool> known;     // and whether it has an argument
    std::vector<std::string> arg;
    std::string optstring;
};

static Opts genOpts(pbt::Gen& g, bool errors)
{
    Opts o;
    for (int n=g.below(6); n>0; n--)
    {
        char c = g.rare(4) ? '0' + g.below(10) : 'a' + g.below(26);
        if (!o.known.count(c))
        {
            bool a = g.flip();
            o.known[c] = a;
            o.optstring += c;
            if (a)
                o.optstring += ':';
        }
    }
    std::vector<char> flag, with;
    for (auto& x : o.known)
        (x.second ? with : flag).push_back(x.first);
    o.arg.push_back("program");
    for (int n=g.wide(10, 80); n>0; n--)
        switch (g.weighted({3, flag.empty() ? 0 : 4, with.empty() ? 0 : 4,
                            1, errors ? 1 : 0}))
        {
        case 0: o.arg.push_back(g.rare(6) ? "-" : g.rare(6) ? "" :
                                "f" + line(g, 5)); break;
        case 1:
        {
            std::string s = "-";
            for (int k=1+g.below(3); k>0; k--)
                s += g.pick(flag);
            if (!with.empty() && g.rare(3))
                s += std::string(1, g.pick(with)) + "1" + line(g, 3);
            o.arg.push_back(s);
            break;
        }
        case 2:
        {
            std::string s = std::string("-") + g.pick(with);
            std::string a = g.rare(4) ? "-5" : g.rare(6) ? ""
                : "v" + line(g, 5, "-=");
            if (!a.empty() && g.flip())
                o.arg.push_back(s + a);
            else
            {
                o.arg.push_back(s);
                o.arg.push_back(a);
            }
            break;
        }
        case 3:
            if (g.rare(3))
                o.arg.push_back("--");
            break;
        case 4: o.arg.push_back(g.flip() ? std::string("-Z") : with.empty()
                                ? "-Y" : std::string("-") + with[0]); break;
        }
    return o;
}

PROPERTY(C32, loop, 40000,
         "up to 5 options and command lines of up to 10 words: clusters, "
         "arguments attached and apart, other words between, --, unknown "
         "options, perhaps after another; what the option loop gives against "
         "getopt itself; non-trivial if 2 or more options given")
{
    Opts o = genOpts(g, true), before;
    bool other = g.rare(3);
    if (other)
        before = genOpts(g, true);
    for (auto& s : o.arg)
        g.trace << pbt::quote(s) << " ";
    g.trace << "with " << o.optstring;
    for (auto& s : before.arg)
        g.trace << " after " << pbt::quote(s);
    opterr = 0;
    struct Got { int c; std::string a; };
    auto show = [](const std::vector<Got>& v, const std::vector<std::string>& r)
        {
            std::string s;
            for (auto& x : v)
                s += std::string(1, (char)x.c) + x.a + " ";
            s += "|";
            for (auto& x : r)
                s += " " + pbt::quote(x);
            return s;
        };
    // What should be
    std::vector<Got> want;
    std::vector<std::string> rest;
    {
        Argv a(o.arg);
        optind = 0;
        int c;
        while ((c = getopt(a.argc(), a.argv(), o.optstring.c_str())) != -1)
            want.push_back(Got{c, optarg ? pbt::quote(optarg) : "-"});
        for (int i=optind; i<a.argc(); i++)
            rest.push_back(a.argv()[i]);
        optind = 0;
        char* none[] = {nullptr};
        getopt(0, none, "");
    }
    std::vector<Got> got;
    std::vector<std::string> left;
    // Perhaps another command line before, to its end
    Argv b(before.arg);
    if (other)
    {
        lu::Option opt(b.argc(), b.argv(), mk(before.optstring));
        while (opt) {}
    }
    Argv a(o.arg);
    lu::Option opt(a.argc(), a.argv(), mk(o.optstring));
    while (opt)
    {
        std::string s = "-";
        bool threw = throws([&] { s = canon(opt.arg()); });
        EXPECT_EQ(threw, s == "-", "argument");
        got.push_back(Got{opt.get(), s});
    }
    EXPECT_EQ(opt.index(), (ind)(a.argc() - rest.size()), "index");
    var r = opt.args();
    for (int i=0; i<r.size(); i++)
        left.push_back(r.at(i).str());
    EXPECT_EQ(show(got, left), show(want, rest), "options");
    g.nontrivial(want.size() > 1);
}

PROPERTY(C32, parse, 40000,
         "up to 5 declared options, with and without a default, and command "
         "lines as above without errors; the parsed map and the rest of the "
         "words; non-trivial if an option is given more than once or a "
         "default remains")
{
    Opts o = genOpts(g, false);
    for (auto& s : o.arg)
        g.trace << pbt::quote(s) << " ";
    g.trace << "with " << o.optstring;
    lu::Option opt(mk("A program"));
    std::map<char, std::string> want;
    for (auto& x : o.known)
    {
        if (g.rare(4))
            opt(mk("A title"));
        if (!x.second)
        {
            opt(x.first, mk("A flag"));
            want[x.first] = "nil";
            continue;
        }
        switch (g.below(5))
        {
        case 0:
        {
            int d = g.range(-3, 3);
            opt(x.first, mk("A number"), d);
            want[x.first] = std::to_string(d);
            break;
        }
        case 1:
        {
            var d;
            d["key"] = 1;
            opt(x.first, mk("A map"), d);
            want[x.first] = canon(d);
            break;
        }
        case 2:
            opt(x.first, mk("Nothing"), mk(""));
            want[x.first] = "\"\"";
            break;
        default:
        {
            std::string d = line(g, 8);
            opt(x.first, mk("A text"), mk(d));
            want[x.first] = pbt::quote(d);
        }
        }
    }
    // The order of declaration does not matter
    std::vector<std::string> rest;
    std::set<char> given;
    bool twice = false;
    bool ok = true;
    {
        Argv a(o.arg);
        opterr = 0;
        optind = 0;
        int c;
        while ((c = getopt(a.argc(), a.argv(), o.optstring.c_str())) != -1)
        {
            if (c == '?')
                ok = false;
            twice = twice || given.count((char)c);
            given.insert((char)c);
            want[(char)c] = optarg ? pbt::quote(optarg) : "1";
        }
        for (int i=optind; i<a.argc(); i++)
            rest.push_back(a.argv()[i]);
        optind = 0;
        char* none[] = {nullptr};
        getopt(0, none, "");
        optind = 1;
    }
    if (!ok)
        return; // It would exit
    Argv a(o.arg);
    var v = opt.parse(a.argc(), a.argv());
    std::map<char, std::string> got;
    for (int i=0; i<v.size(); i++)
        got[v.key(i).get<char>()] = canon(v.at(i));
    auto show = [](const std::map<char, std::string>& m) {
        std::string s;
        for (auto& x : m)
            s += std::string(1, x.first) + "=" + x.second + " ";
        return s;
    };
    EXPECT_EQ(show(got), show(want), "options");
    for (auto& x : want)
        EXPECT_EQ(canon(opt[x.first]), x.second, "one option");
    var r = opt.args();
    EXPECT_EQ((size_t)r.size(), rest.size(), "number of words left");
    for (size_t i=0; i<rest.size(); i++)
        EXPECT_EQ(std::string(r.at((int)i).str()), rest[i], "word left");
    g.nontrivial(twice || given.size() < o.known.size());
}

PROPERTY(C32, usage, 8000,
         "up to 6 declared options, flags or with a default, and titles; the "
         "text of usage after a command line, which has a line for each in "
         "order, or of the parse when the command line is wrong, which ends "
         "the process; non-trivial if 2 or more declared")
{
    std::string name = "N" + line(g, 8);
    lu::Option opt(mk(name));
    std::vector<std::string> want;
    std::string flags, optstring;
    std::set<char> used;
    for (int n=g.below(7); n>0; n--)
    {
        std::string text = "D" + line(g, 8);
        char c = 'a' + g.below(26);
        int form = g.below(4);
        if (form == 0 || used.count(c))
        {
            opt(mk(text));
            want.push_back(text);
            continue;
        }
        used.insert(c);
        std::string w = std::string(" -") + c + " " + text;
        optstring += c;
        if (form == 1)
        {
            opt(c, mk(text));
            flags += c;
        }
        else if (form == 2)
        {
            int d = g.below(100);
            opt(c, mk(text), d);
            w += " [" + std::to_string(d) + "]";
            optstring += ':';
        }
        else
        {
            opt(c, mk(text), mk("def"));
            w += " [\"def\"]";
            optstring += ':';
        }
        want.push_back(w);
    }
    bool wrong = g.rare(8);
    std::vector<std::string> words = {"prog" + std::to_string(g.below(10))};
    if (!flags.empty() && g.flip())
        words.push_back(std::string("-") + flags[0]);
    if (wrong)
        words.push_back("-Z");
    if (g.flip())
        words.push_back("file");
    std::string all = name + "\nUsage: " + words[0];
    if (!optstring.empty())
        all += " -[" + optstring + "]";
    all += " [args] (see 'man 3 getopt')\n";
    for (auto& w : want)
        all += w + "\n";
    g.trace << (wrong ? "wrong " : "") << pbt::quote(all);
    g.nontrivial(want.size() > 1);
    Argv a(words);
    opterr = 0;
    optind = 1;
    std::string out;
    if (!wrong)
    {
        opt.parse(a.argc(), a.argv());
        std::ostringstream os;
        std::streambuf* was = std::cout.rdbuf(os.rdbuf());
        bool threw = throws([&] { opt.usage(); });
        std::cout.rdbuf(was);
        EXPECT(!threw, "usage");
        out = os.str();
    }
    else
    {
        std::string file = pbt::scratch() + "/usage.txt";
        fflush(stdout);
        std::cout.flush();
        pid_t pid = fork();
        EXPECT(pid >= 0, "fork");
        if (pid == 0)
        {
            int fd = open(file.c_str(), O_WRONLY|O_CREAT|O_TRUNC, 0666);
            dup2(fd, 1);
            opt.parse(a.argc(), a.argv());
            _exit(99);
        }
        int status = 0;
        waitpid(pid, &status, 0);
        EXPECT(WIFEXITED(status), "ended by a signal");
        EXPECT_EQ(WEXITSTATUS(status), 0, "exit status");
        std::ifstream f(file);
        std::stringstream ss;
        ss << f.rdbuf();
        out = ss.str();
    }
    optind = 0;
    char* none[] = {nullptr};
    getopt(0, none, "");
    optind = 1;
    EXPECT_EQ(out, all, "text of usage");
}

// --- C33 XML

struct Elem
{
    bool isText = false;
    std::string text;
    std::string name;
    std::map<std::string, std::string> attr;
    std::vector<Elem> data;
};

static std::string xname(pbt::Gen& g)
{
    std::string s(1, g.rare(6) ? '_' : 'a' + g.below(26));
    for (int n=g.wide(6, 100, 80); n>0; n--)
        s += g.rare(5) ? g.pick({'-', '.', '_', '1'}) : (char)('a' + g.below(26));
    return s;
}

static std::string xtext(pbt::Gen& g, int max)
{
    return line(g, max, g.flip() ? "&<>'\"\n\t\r]" : "");
}

static Elem genElem(pbt::Gen& g, int depth, int& budget)
{
    Elem e;
    e.name = xname(g);
    for (int n=g.rare(2) ? g.wide(4, 40, 60) : 0; n>0; n--)
        e.attr[xname(g)] = xtext(g, 12);
    if (depth > 0)
        for (int n=g.wide(5, 60, 60); n>0 && budget>0; n--)
        {
            budget--;
            bool after = !e.data.empty() && e.data.back().isText;
            if (!after && g.flip())
            {
                Elem t;
                t.isText = true;
                t.text = xtext(g, 20);
                if (t.text.empty())
                    t.text = "four";
                e.data.push_back(t);
            }
            else
                e.data.push_back(genElem(g, depth-1, budget));
        }
    return e;
}

static std::string show(const Elem& e)
{
    if (e.isText)
        return pbt::quote(e.text);
    std::string s = "<" + e.name;
    for (auto& a : e.attr)
        s += " " + a.first + "=" + pbt::quote(a.second);
    s += ">(";
    for (auto& x : e.data)
        s += show(x) + " ";
    return s + ")";
}

/** What was read, with adjacent texts joined */
static Elem model(var v)
{
    Elem e;
    EXPECT(v.atype() == lu::TYPE_VAR && v.size() == 4, "not an element: "
           << canon(v));
    e.name = v[lu::NAME].str();
    EXPECT_EQ(canon(v[lu::TYPE]), std::string("\"text\""), "type");
    var a = v[lu::ATTR];
    for (int i=0; i<a.size(); i++)
        e.attr[a.key(i).str()] = std::string(a.at(i).str(), a.at(i).size());
    var d = v[lu::DATA];
    for (int i=0; i<d.size(); i++)
    {
        var x = d.at(i);
        if (x.atype() == lu::TYPE_CHAR)
        {
            if (e.data.empty() || !e.data.back().isText)
            {
                e.data.push_back(Elem());
                e.data.back().isText = true;
            }
            e.data.back().text += std::string(x.str(), x.size());
        }
        else
            e.data.push_back(model(x));
    }
    return e;
}

static var build(pbt::Gen& g, const Elem& e)
{
    var v;
    if (e.isText)
        return mk(e.text);
    v[lu::DATA] = lu::nil;
    v[lu::NAME] = mk(e.name);
    v[lu::ATTR] = lu::nil;
    v[lu::TYPE] = "text";
    for (auto& a : e.attr)
        v[lu::ATTR][mk(a.first)] = mk(a.second);
    for (auto& x : e.data)
        if (x.isText && x.text.size() > 1 && g.rare(3))
        {
            // In two pieces
            int k = 1 + g.below((int)x.text.size() - 1);
            v[lu::DATA].push(mk(x.text.substr(0, k)));
            v[lu::DATA].push(mk(x.text.substr(k)));
        }
        else
            v[lu::DATA].push(build(g, x));
    return v;
}

/** Our own writer, which uses more of the language than the library does */
static std::string space(pbt::Gen& g, bool must)
{
    std::string s;
    if (must)
        s = g.rare(4) ? g.pick<const char*>({"\n", "\t", "\r\n", "  "}) : " ";
    while (g.rare(6))
        s += g.pick<const char*>({"\n", "\t", " "});
    return s;
}

static std::string escaped(pbt::Gen& g, const std::string& t, char quote)
{
    std::string s;
    auto ref = [&](int c, const char* name) {
        char b[16];
        switch (name ? g.below(3) : 1 + g.below(2))
        {
        case 0: s += std::string("&") + name + ";"; break;
        case 1: snprintf(b, sizeof b, "&#%d;", c); s += b; break;
        case 2: snprintf(b, sizeof b, "&#x%x;", c); s += b; break;
        }
    };
    for (char c : t)
    {
        // A literal line end is not part of the text
        if (!quote && (c & 0xc0) != 0x80 && g.rare(20))
            s += g.flip() ? "\n" : "\r\n";
        switch (c)
        {
        case '&': ref(c, "amp"); break;
        case '<': ref(c, "lt"); break;
        case '>': ref(c, "gt"); break;
        case '"': if (quote == '"' || g.flip()) ref(c, "quot"); else s += c;
            break;
        case '\'': if (quote == '\'' || g.flip()) ref(c, "apos"); else s += c;
            break;
        case '\n': case '\r': ref(c, nullptr); break;
        case '\t': if (quote || g.flip()) ref(c, nullptr); else s += c; break;
        default:
            if (c > 0 && g.rare(20))
                ref(c, nullptr);
            else
                s += c;
        }
    }
    return s;
}

static std::string xml(pbt::Gen& g, const Elem& e)
{
    if (e.isText)
        return escaped(g, e.text, 0);
    std::string s = "<" + e.name;
    for (auto& a : e.attr)
    {
        char q = g.flip() ? '"' : '\'';
        s += space(g, true) + a.first + space(g, false) + "=" + space(g, false)
            + q + escaped(g, a.second, q) + q;
    }
    s += space(g, false);
    if (e.data.empty() && g.flip())
        return s + "/>";
    s += ">";
    for (auto& x : e.data)
    {
        if (g.rare(8))
            s += "\n";
        s += xml(g, x);
    }
    if (g.rare(8))
        s += "\n";
    return s + "</" + e.name + space(g, false) + ">";
}

static int count(const Elem& e)
{
    int n = e.isText ? 0 : 1;
    for (auto& x : e.data)
        n += count(x);
    return n;
}

/** Change every text that can be reached, in place */
static void scribble(var v)
{
    if (!v.defined())
        return;
    std::string type = v.atypeStr().str();
    if (type == "array[char]")
        v.push('#');
    else if (type == "array[var]" || type == "array[pair]")
        for (int i=0; i<v.size(); i++)
        {
            var e = v.at(i);
            scribble(e);
        }
}

PROPERTY(C33, read, 30000,
         "documents of up to 40 elements to depth 5 with attributes and text, "
         "written with entities, references, quotes of both kinds and stray "
         "white space; non-trivial if 2 or more elements")
{
    int budget = 40;
    Elem e = genElem(g, 5, budget);
    std::string doc;
    if (g.flip())
        doc += "<?xml version=\"1.0\"?>\n";
    doc += space(g, false);
    if (doc[0] != '<')
        doc = strip(doc);
    doc += xml(g, e) + space(g, false);
    std::string name = in("x.xml");
    spit(name, doc);
    g.trace << pbt::quote(doc);
    Quiet q;
    Handler f("xml");
    var v = f.read(name);
    EXPECT_EQ(show(model(v)), show(e), "read");
    // Again, with what was read before left alone
    if (g.rare(4))
    {
        std::string was = canon(v);
        var w = f.read(name);
        EXPECT_EQ(canon(w), was, "read again");
        w[lu::DATA] = 0;
        w[lu::NAME] = 0;
        EXPECT_EQ(canon(v), was, "read before");
        var x = f.read(name);
        scribble(x);
        EXPECT_EQ(canon(v), was, "read before what was changed in place");
        EXPECT_EQ(canon(f.read(name)), was, "read after a change in place");
    }
    g.nontrivial(count(e) > 1);
    g.label(!e.attr.empty(), "attributes");
}

/** Our own reader, of the subset of XML that can be expected */
struct Reader
{
    const std::string& s;
    size_t i = 0;
    explicit Reader(const std::string& iS) : s(iS) {}
    [[noreturn]] void bad(const char* w)
    {
        pbt::fail("malformed XML: " + std::string(w) + " at "
                  + std::to_string(i) + " of " + pbt::quote(s));
    }
    bool is(const char* t) { return s.compare(i, strlen(t), t) == 0; }
    void want(const char* t)
    {
        if (!is(t))
            bad(t);
        i += strlen(t);
    }
    void ws()
    {
        while (i < s.size() && strchr(" \t\r\n", s[i]))
            i++;
    }
    std::string name()
    {
        size_t k = i;
        while (i < s.size() && (isalnum((unsigned char)s[i])
                                || strchr("-._", s[i])))
            i++;
        if (k == i)
            bad("name");
        return s.substr(k, i-k);
    }
    std::string text(char end)
    {
        std::string t;
        while (i < s.size() && s[i] != end)
        {
            char c = s[i++];
            if (c == '<')
                bad("< in text");
            if (end != '<' && (c == '\n' || c == '\t' || c == '\r'))
                c = ' ';
            if (c != '&')
            {
                t += c;
                continue;
            }
            size_t k = s.find(';', i);
            if (k == std::string::npos)
                bad("entity");
            std::string n = s.substr(i, k-i);
            i = k+1;
            if (n == "amp") t += '&';
            else if (n == "lt") t += '<';
            else if (n == "gt") t += '>';
            else if (n == "apos") t += '\'';
            else if (n == "quot") t += '"';
            else if (n[0] == '#' && n.size() > 1)
                t += (char)(n[1] == 'x' ? strtol(n.c_str()+2, nullptr, 16)
                            : strtol(n.c_str()+1, nullptr, 10));
            else bad("entity");
        }
        return t;
    }
    Elem elem()
    {
        Elem e;
        want("<");
        e.name = name();
        for (;;)
        {
            size_t k = i;
            ws();
            if (is("/>"))
            {
                i += 2;
                return e;
            }
            if (is(">"))
            {
                i++;
                break;
            }
            if (k == i)
                bad("space before attribute");
            std::string a = name();
            ws();
            want("=");
            ws();
            char q = s[i];
            if (q != '"' && q != '\'')
                bad("quote");
            i++;
            if (e.attr.count(a))
                bad("duplicate attribute");
            e.attr[a] = text(q);
            want(q == '"' ? "\"" : "'");
        }
        for (;;)
        {
            if (is("</"))
            {
                i += 2;
                if (name() != e.name)
                    bad("end tag");
                ws();
                want(">");
                return e;
            }
            if (is("<"))
            {
                e.data.push_back(elem());
                continue;
            }
            if (i >= s.size())
                bad("end of file");
            Elem t;
            t.isText = true;
            t.text = text('<');
            e.data.push_back(t);
        }
    }
};

PROPERTY(C33, write, 30000,
         "elements as above are written as XML that our own reader, and the "
         "library, read as the same; the value written is left alone; "
         "non-trivial if 2 or more elements")
{
    int budget = 40;
    Elem e = genElem(g, 5, budget);
    g.trace << show(e);
    var v = build(g, e);
    std::string was = canon(v);
    std::string name = in("w.xml");
    Quiet q;
    Handler f("xml");
    f.write(name, v);
    EXPECT_EQ(canon(v), was, "what was written");
    std::string doc = slurp(name);
    Reader r(doc);
    r.ws();
    if (r.is("<?xml "))
    {
        size_t k = doc.find("?>");
        EXPECT(k != std::string::npos, "declaration");
        r.i = k + 2;
    }
    r.ws();
    Elem w = r.elem();
    r.ws();
    EXPECT(r.i == doc.size(), "more than one element: " << pbt::quote(doc));
    EXPECT_EQ(show(w), show(e), "file");
    var back = f.read(name);
    EXPECT_EQ(show(model(back)), show(e), "read back");
    g.nontrivial(count(e) > 1);
}

PROPERTY(C33, refused, 20000,
         "documents damaged by a missing, different or extra tag, an open "
         "quote, a stray < or &, a duplicate attribute, or truncation, are "
         "refused; values that are not elements are not written; all "
         "non-trivial")
{
    Quiet q;
    Handler f("xml");
    std::string name = in("bad.xml");
    g.nontrivial();
    if (g.rare(8))
    {
        var v;
        switch (g.below(4))
        {
        case 0: v = 1; break;
        case 1: v = "text"; break;
        case 2: v[0] = 1; break;
        case 3: v[lu::DATA] = lu::nil; v[lu::NAME] = "a"; break;
        }
        g.trace << "write " << canon(v);
        bool threw = throws([&] { f.write(name, v); });
        EXPECT(threw, "written");
        return;
    }
    int budget = 20;
    Elem e = genElem(g, 4, budget);
    Elem inner;
    inner.name = "inner";
    Elem text;
    text.isText = true;
    text.text = "some text";
    inner.data.push_back(text);
    e.data.push_back(inner);
    // Unambiguous places to damage
    std::string s = xml(g, e);
    size_t open = s.rfind("<inner"), close = s.rfind("</inner");
    switch (g.below(9))
    {
    case 0: s = s.substr(0, g.below((int)s.size() - 1)); break;
    case 1: s.insert(close, "</x>"); break;
    case 2: s.insert(close, "<x>"); break;
    case 3: s.insert(close, "&"); break;
    case 4: s.insert(close, "< "); break;
    case 5: s.insert(open + 6, " a=\"1\" a=\"2\""); break;
    case 6: s.insert(open + 6, " a=\"1"); break;
    case 7: s.insert(close + 2, "x"); break;
    case 8: s += "<y/>"; break;
    }
    spit(name, s);
    g.trace << pbt::quote(s);
    bool threw = throws([&] { var v = f.read(name); });
    EXPECT(threw, "read");
}

// --- C34 GEDCOM

struct Person
{
    std::string name, title, sex;
};

struct Family
{
    int husband = -1, wife = -1;
    std::vector<int> child;
};

static void events(pbt::Gen& g, std::ostream& o, int level)
{
    for (int n=g.below(4); n>0; n--)
        switch (g.below(4))
        {
        case 0: o << level << " DATE " << 1 + g.below(28) << " MAY "
                  << 1800 + g.below(200) << "\n"; break;
        case 1: o << level << " PLAC " << "p" << line(g, 10) << "\n"; break;
        case 2: o << level << " NOTE n" << line(g, 10) << "\n"; break;
        case 3:
            o << level << " NOTE n" << line(g, 10) << "\n";
            o << level+1 << (g.flip() ? " CONT c" : " CONC c") << line(g, 10)
              << "\n";
            break;
        }
}

PROPERTY(C34, read, 30000,
         "files of a header, up to 20 people with names, titles, events and "
         "notes, up to 10 families that refer to them, and a trailer; who is "
         "in which family; non-trivial if a family has 2 or more members")
{
    std::ostringstream o;
    std::vector<Person> p;
    std::vector<Family> f;
    o << "0 HEAD\n";
    for (int n=g.below(3); n>0; n--)
        o << "1 SOUR s" << line(g, 10) << "\n2 VERS 1\n";
    auto submitter = [&] {
        if (g.rare(4))
        {
            o << "0 @S1@ SUBM\n";
            if (g.flip())
                o << "1 NAME n" << line(g, 10) << "\n2 ADDR x\n";
        }
    };
    submitter();
    std::vector<std::string> ref;
    auto person = [&] {
        Person x;
        std::string r = "@" + std::string(g.flip() ? "I" : "P")
            + std::to_string(p.size() * 7 + g.below(7)) + "@";
        ref.push_back(r);
        o << "0 " << r << " INDI\n";
        bool named = !g.rare(6), titled = g.rare(4), sexed = g.flip();
        auto put = [&](const char* t, std::string& s, bool b,
                       const std::string& v) {
            if (!b)
                return;
            s = v;
            o << "1 " << t << " " << v << "\n";
        };
        put("NAME", x.name, named, "N" + line(g, 10, "/"));
        put("TITL", x.title, titled, "T" + line(g, 8));
        for (int n=g.below(3); n>0; n--)
            switch (g.below(5))
            {
            case 0: o << "1 " << g.pick<const char*>({"BIRT", "DEAT", "CHR",
                                                      "BURI"}) << "\n";
                events(g, o, 2); break;
            case 1: o << "1 OCCU o" << line(g, 10) << "\n"; break;
            case 2:
                o << "1 NOTE n" << line(g, 10) << "\n";
                for (int k=g.below(3); k>0; k--)
                    o << (g.flip() ? "2 CONT c" : "2 CONC c") << line(g, 10)
                      << "\n";
                break;
            case 3: o << "1 FAMC @F1@\n"; break;
            case 4: o << "1 FAMS @F2@\n"; break;
            }
        put("SEX", x.sex, sexed, g.flip() ? "M" : "F");
        p.push_back(x);
    };
    int members = 0;
    auto family = [&] {
        Family x;
        o << "0 @F" << f.size() << "@ FAM\n";
        std::vector<int> order = {0, 1, 2, 3};
        for (int n=g.below(6); n>0; n--)
            switch (g.weighted({2, 2, 4, 1, 1}))
            {
            case 0:
                x.husband = g.below((int)p.size());
                o << "1 HUSB " << ref[x.husband] << "\n";
                break;
            case 1:
                x.wife = g.below((int)p.size());
                o << "1 WIFE " << ref[x.wife] << "\n";
                break;
            case 2:
                x.child.push_back(g.below((int)p.size()));
                o << "1 CHIL " << ref[x.child.back()] << "\n";
                break;
            case 3: o << "1 MARR\n"; events(g, o, 2); break;
            case 4: o << "1 DIV\n"; break;
            }
        members = std::max(members, (int)(x.husband >= 0) + (x.wife >= 0)
                           + (int)x.child.size());
        f.push_back(x);
    };
    int np = g.wide(20, 200), nf = g.wide(10, 100);
    for (int i=0; i<np; i++)
        person();
    if (np > 0)
        for (int i=0; i<nf; i++)
        {
            family();
            if (g.rare(5))
                person();
        }
    submitter();
    o << "0 TRLR\n";
    std::string name = in("x.ged");
    std::string doc = o.str();
    if (g.rare(6))
    {
        // Cut short, at the end of a line
        doc.resize(g.below((int)doc.size()));
        while (!doc.empty() && doc.back() != '\n')
            doc.pop_back();
        spit(name, doc);
        g.trace << pbt::quote(doc);
        g.label(true, "cut short");
        Quiet q;
        Handler m("ged");
        bool threw = throws([&] { var v = m.read(name); });
        EXPECT(threw, "a file cut short");
        g.nontrivial(members > 1);
        return;
    }
    spit(name, doc);
    g.trace << pbt::quote(doc);
    std::string want = "{";
    auto str = [](const std::string& s) {
        return s.empty() ? std::string("nil") : pbt::quote(s);
    };
    auto num = [](int i) { return i < 0 ? std::string("nil")
                           : std::to_string(i); };
    if (!f.empty())
    {
        want += "\"Family\": [";
        for (size_t i=0; i<f.size(); i++)
        {
            want += i ? ", " : "";
            std::string c;
            // One integer is a scalar
            if (f[i].child.size() == 1)
                c = num(f[i].child[0]);
            else if (f[i].child.empty())
                c = "nil";
            else
            {
                c = "int[";
                for (size_t k=0; k<f[i].child.size(); k++)
                    c += (k ? ", " : "") + num(f[i].child[k]);
                c += "]";
            }
            want += "{\"CHIL\": " + c + ", \"HUSB\": " + num(f[i].husband)
                + ", \"WIFE\": " + num(f[i].wife) + "}";
        }
        want += "]";
    }
    if (!p.empty())
    {
        want += f.empty() ? "\"Individual\": [" : ", \"Individual\": [";
        for (size_t i=0; i<p.size(); i++)
            want += (i ? ", " : "") + ("{\"NAME\": " + str(p[i].name))
                + ", \"SEX\": " + str(p[i].sex) + ", \"TITL\": "
                + str(p[i].title) + "}";
        want += "]";
    }
    want += "}";
    if (p.empty())
        want = "nil";
    Quiet q;
    Handler m("ged");
    if (g.rare(4))
    {
        // Something else beforehand
        bool whole = g.flip();
        spit(in("y.ged"), std::string("0 HEAD\n1 SOUR x\n0 @I1@ INDI\n"
                                      "1 NAME x\n0 @F1@ FAM\n1 CHIL @I1@\n")
             + (whole ? "0 TRLR\n" : ""));
        var u;
        bool threw = throws([&] { u = m.read(in("y.ged")); });
        EXPECT_EQ(threw, !whole, "something else refused");
        std::string was = canon(u);
        EXPECT_EQ(canon(m.read(name)), want, "read after something else");
        EXPECT_EQ(canon(u), was, "something else, afterwards");
    }
    var v = m.read(name);
    EXPECT_EQ(canon(v), want, "read");
    g.nontrivial(members > 1);
}

PROPERTY(C34, any, 30000,
         "files of up to 40 lines of any level, of known and unknown tags, of "
         "references to people there are and are not, cut short or followed "
         "by something else; reading ends, and gives no more people and "
         "families than there are records; non-trivial if it gives any")
{
    static const char* tag[] = {
        "HEAD", "TRLR", "SUBM", "INDI", "FAM", "NAME", "TITL", "SEX", "BIRT",
        "DEAT", "CHR", "BURI", "OCCU", "CONT", "CONC", "NOTE", "FAMS", "FAMC",
        "DATE", "PLAC", "HUSB", "WIFE", "CHIL", "DIV", "MARR", "REFN", "SOUR",
        "VERS", "REPO", "_X", "name", "@I1@", "", "7"
    };
    std::string s;
    int indi = 0, fam = 0, level = 0;
    if (!g.rare(6))
        s += "0 HEAD\n1 SOUR x\n";
    for (int n=g.sized(40); n>0; n--)
    {
        switch (g.below(6))
        {
        case 0:
            // A record
            s += "0 @I" + std::to_string(g.below(4)) + "@ INDI\n";
            level = 1;
            break;
        case 1:
            s += "0 @F" + std::to_string(g.below(4)) + "@ FAM\n";
            level = 1;
            break;
        default:
            if (g.rare(4))
                level = g.rare(20) ? g.range(-2, 100000) : g.below(4);
            s += std::to_string(level) + " "
                + tag[g.rare(6) ? g.below(34) : 5 + g.below(21)];
            switch (g.below(4))
            {
            case 0: break;
            case 1: s += " @I" + std::to_string(g.below(4)) + "@"; break;
            case 2: s += " " + line(g, 10); break;
            case 3: s += " x" + line(g, 6); break;
            }
            s += g.rare(20) ? "\r\n" : g.rare(30) ? "\n\n" : "\n";
        }
    }
    if (g.flip())
        s += "0 TRLR\n";
    if (g.rare(5) && !s.empty())
        s.resize(g.below((int)s.size()));
    if (g.rare(5) && !s.empty())
        s[g.below((int)s.size())] = (char)g.below(256);
    // Any INDI and FAM, as it can be the value of something else
    for (size_t i=0; (i = s.find("INDI", i)) != s.npos; i++)
        indi++;
    for (size_t i=0; (i = s.find("FAM", i)) != s.npos; i++)
        fam++;
    std::string name = in("x.ged");
    spit(name, s);
    g.trace << pbt::quote(s);
    Quiet q;
    Handler m("ged");
    var v;
    bool threw = throws([&] { v = m.read(name); });
    g.label(threw, "refused");
    if (threw || !v.defined())
        return;
    int ni = 0, nf = 0;
    if (v.index("Individual"))
        ni = v.at("Individual").size();
    if (v.index("Family"))
        nf = v.at("Family").size();
    EXPECT(ni <= indi, "people: " << ni << " of " << indi);
    EXPECT(nf <= fam, "families: " << nf << " of " << fam);
    g.nontrivial(ni + nf > 0);
}

PROPERTY(C33, missing, 2000,
         "files that do not exist, and files in directories that do not "
         "exist, are refused by each module that reads or writes files; all "
         "non-trivial")
{
    Quiet q;
    const char* t = g.pick<const char*>({"txt", "ini", "xml", "snd", "ged"});
    std::string name = in("none/") + line(g, 8) + ".x";
    var a;
    a["rate"] = 8000;
    Handler f(t, a);
    g.nontrivial();
    g.trace << t << " " << name;
    if (g.flip() || !strcmp(t, "ged"))
    {
        bool threw = throws([&] { var v = f.read(name); });
        EXPECT(threw, "read");
    }
    else
    {
        var v = 0.5f;
        v.array();
        bool threw = throws([&] { f.write(name, v); });
        EXPECT(threw, "written");
    }
}
