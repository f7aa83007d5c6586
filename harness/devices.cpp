/* Modules: sound, plots, graphs, paths, transfers; the loader itself */
#include <arpa/inet.h>
#include <cmath>
#include <filesystem>
#include <set>
#include <sys/socket.h>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>

#include <lube/curl.h>
#include <lube/graph.h>
#include <lube/path.h>
#include "modules.h"
#include "testmod.h"

using namespace modules;
namespace fs = std::filesystem;

// --- C35 Sound

static void put(std::string& s, uint32_t x, int n)
{
    for (int i=0; i<n; i++)
        s += (char)(x >> (8*i));
}

static uint32_t take(const std::string& s, size_t at, int n)
{
    uint32_t x = 0;
    EXPECT(at + n <= s.size(), "short sound file");
    for (int i=0; i<n; i++)
        x |= (uint32_t)(unsigned char)s[at+i] << (8*i);
    return x;
}

/** 8, 16, 24 bit or (32) floating point */
static std::string wav(int bits, int channels, int rate,
                       const std::vector<float>& x, std::vector<float>& y)
{
    std::string d;
    for (float f : x)
        if (bits == 32)
        {
            uint32_t u;
            memcpy(&u, &f, 4);
            put(d, u, 4);
            y.push_back(f);
        }
        else
        {
            double full = (double)(1 << (bits-1));
            int i = (int)std::floor(f * (full - 1));
            put(d, (uint32_t)(bits == 8 ? i + 128 : i), bits/8);
            y.push_back((float)(i / full));
        }
    std::string s = "RIFF";
    put(s, (uint32_t)(36 + d.size() + d.size() % 2), 4);
    s += "WAVEfmt ";
    put(s, 16, 4);
    put(s, bits == 32 ? 3 : 1, 2);
    put(s, channels, 2);
    put(s, rate, 4);
    put(s, rate * channels * bits/8, 4);
    put(s, channels * bits/8, 2);
    put(s, bits, 2);
    s += "data";
    put(s, (uint32_t)d.size(), 4);
    s += d;
    if (d.size() % 2)
        s += '\0';
    return s;
}

static std::vector<float> samples(pbt::Gen& g, int n)
{
    std::vector<float> x;
    for (int i=0; i<n; i++)
        x.push_back(g.rare(8) ? g.pick({1.0f, -1.0f, 0.0f, 0.999f})
                    : (float)(g.range(-1000, 1000) / 1001.0));
    return x;
}

PROPERTY(C35, read, 20000,
         "up to 3 WAV files of 8, 16 and 24 bits and of floating point, 1 to 4 "
         "channels, up to 200 frames, written here and read by one object; "
         "samples, shape and rate; non-trivial if 2 or more channels and "
         "frames")
{
    var a;
    a[lu::nil];
    if (g.rare(3))
        a["rate"] = 22050;
    int before = a["rate"] ? 22050 : 0;
    Handler h("snd", a);
    g.trace << "rate " << before;
    var last;
    std::vector<float> was;
    for (int n=1+g.below(3); n>0; n--)
    {
        int channels = g.flip() ? 1 : 2 + g.wide(2, 12);
        int frames = 1 + g.wide(200, 9000, 60);
        int rate = g.pick({8000, 16000, 44100, 48000, 1, 11025});
        int bits = g.pick({16, 8, 24, 32});
        g.trace << "; " << channels << "x" << frames << " at " << rate
                << " of " << bits << " bits";
        std::vector<float> y;
        std::string name = in("x.wav");
        std::vector<float> x = samples(g, channels * frames);
        spit(name, wav(bits, channels, rate, x, y));
        for (int i=0; i<(int)x.size() && i < 8; i++)
            g.trace << " " << x[i];
        var v = h.read(name);
        EXPECT(a.size() == 1 && a["rate"].get<int>() == rate, "rate: "
               << canon(a));
        EXPECT_EQ(v.atype(), (ind)lu::TYPE_FLOAT, "type");
        EXPECT_EQ(v.size(), channels * frames, "size");
        if (channels == 1)
            EXPECT_EQ(v.dim(), 1, "dimension");
        else
            EXPECT(v.dim() == 2 && v.shape(0) == channels
                   && v.shape(1) == frames, "shape");
        std::vector<float> z;
        for (int c=0; c<channels; c++)
            for (int f=0; f<frames; f++)
            {
                z.push_back(y[f*channels + c]);
                EXPECT_EQ(v.at(c*frames + f).get<float>(), z.back(), "sample");
            }
        // What was read before is not touched
        for (size_t i=0; i<was.size(); i++)
            EXPECT_EQ(last.at((int)i).get<float>(), was[i],
                      "sample read before");
        last = v;
        was = z;
        g.nontrivial(channels > 1 && frames > 1);
    }
}

PROPERTY(C35, write, 20000,
         "up to 4 channels of up to 200 frames, as arrays, matrices and "
         "windows of larger arrays, written and read by our own reader, and "
         "back, to 16 bits; non-trivial as above")
{
    int channels = g.flip() ? 1 : 2 + g.wide(2, 12);
    int frames = 1 + g.wide(200, 9000, 60);
    int rate = g.pick({8000, 16000, 44100, 48000, 1, 11025});
    bool view = channels > 1 || g.flip();
    int before = view ? g.below(4) : 0, after = view ? g.below(4) : 0;
    g.trace << channels << "x" << frames << " at " << rate;
    int n = channels * frames;
    std::vector<float> x = samples(g, n);
    for (int i=0; i<n && i < 8; i++)
        g.trace << " " << x[i];
    var all = 0.0f;
    all.array();
    all.resize(before + n + after);
    for (int i=0; i<all.size(); i++)
        all.at(i) = 0.5f;
    for (int i=0; i<n; i++)
        all.at(before + i) = x[i];
    var v = all;
    if (channels > 1 || (view && g.flip()))
        v = all.view({channels, frames}, before);
    else if (view)
        v = all.view({frames}, before);
    var a;
    a["rate"] = rate;
    std::string name = in("w.wav");
    fs::remove(name);
    Handler h("snd", a);
    h.write(name, v);
    for (int i=0; i<all.size(); i++)
        EXPECT_EQ(all.at(i).get<float>(), i < before || i >= before + n
                  ? 0.5f : x[i-before], "what was written");
    EXPECT(a.size() == 1 && a["rate"].get<int>() == rate, "attributes");
    std::string s = slurp(name);
    EXPECT(s.substr(0, 4) == "RIFF" && s.substr(8, 4) == "WAVE", "header");
    size_t at = 12, data = 0, size = 0;
    while (at + 8 <= s.size())
    {
        std::string id = s.substr(at, 4);
        size_t k = take(s, at+4, 4);
        if (id == "fmt ")
        {
            EXPECT_EQ(take(s, at+8, 2), 1u, "format");
            EXPECT_EQ(take(s, at+10, 2), (uint32_t)channels, "channels");
            EXPECT_EQ(take(s, at+12, 4), (uint32_t)rate, "rate");
            EXPECT_EQ(take(s, at+22, 2), 16u, "bits");
        }
        if (id == "data")
        {
            data = at+8;
            size = k;
        }
        at += 8 + k + k % 2;
    }
    EXPECT_EQ(size, (size_t)n * 2, "bytes of data");
    for (int c=0; c<channels; c++)
        for (int f=0; f<frames; f++)
        {
            int i = (int16_t)take(s, data + 2 * (f*channels + c), 2);
            EXPECT(std::abs(i / 32767.0 - x[c*frames + f]) < 1.6 / 32767,
                   "channel " << c << " frame " << f << " is " << i);
        }
    var r = h.read(name);
    EXPECT_EQ(r.size(), n, "size read back");
    for (int i=0; i<n; i++)
        EXPECT(std::abs(r.at(i).get<float>() - x[i]) < 2.6 / 32767,
               "sample " << i << " read back");
    g.nontrivial(channels > 1 && frames > 1);
}

PROPERTY(C35, refused, 4000,
         "files that are not sound, and values that are not single precision "
         "or without a rate, are refused; all non-trivial")
{
    std::string name = in("bad.wav");
    g.nontrivial();
    var a;
    bool threw;
    switch (g.below(3))
    {
    case 0:
    {
        std::string s = line(g, 100, "RIFFWAVE");
        spit(name, s);
        g.trace << "read " << pbt::quote(s);
        Handler h("snd", a);
        threw = throws([&] { var v = h.read(name); });
        break;
    }
    case 1:
    {
        a["rate"] = 8000;
        var v = g.flip() ? var(0.5) : g.flip() ? var(1) : var("text");
        v.array();
        g.trace << "write " << canon(v);
        Handler h("snd", a);
        threw = throws([&] { h.write(name, v); });
        break;
    }
    default:
    {
        if (g.flip())
            a["other"] = 8000;
        var v = 0.5f;
        v.array();
        g.trace << "no rate";
        Handler h("snd", a);
        threw = throws([&] { h.write(name, v); });
        break;
    }
    }
    EXPECT(threw, "accepted");
}

// --- C36 Plots

/** A program that keeps what it is given, in place of the real one */
static void fakeGnuplot()
{
    static bool done = false;
    if (done)
        return;
    done = true;
    std::string bin = in("bin");
    fs::create_directory(bin);
    spit(bin + "/gnuplot", "#!/bin/sh\necho \"$@\" > \"$PBT_OUT.args\"\n"
         "exec /bin/cat > \"$PBT_OUT\"\n");
    chmod((bin + "/gnuplot").c_str(), 0755);
    setenv("PATH", bin.c_str(), 1);
    setenv("PBT_OUT", in("plot").c_str(), 1);
}

PROPERTY(C36, write, 6000,
         "up to 8 commands, vectors and matrices of 4 numeric types, whole "
         "and as views, in up to 3 calls; what a stand-in for gnuplot is "
         "sent; non-trivial if there is data of 2 or more rows and columns")
{
    fakeGnuplot();
    fs::remove(in("plot"));
    std::vector<std::string> want;      // Lines; numbers after #
    {
        Handler h("gnuplot");
        for (int calls=1+g.rare(3)+g.rare(6); calls>0; calls--)
        {
            var v;
            v[0] = lu::nil;
            v.pop();
            std::string file;
            if (g.rare(3))
            {
                file = "out" + std::to_string(g.below(10)) + ".eps";
                want.push_back("set term post eps");
                want.push_back("set output \"" + file + "\"");
            }
            for (int n=g.wide(8, 40); n>0; n--)
            {
                if (g.flip())
                {
                    std::string s = "c" + line(g, 20, "\"'%\\,");
                    if (g.rare(10))
                        s = "";
                    v.push(mk(s));
                    want.push_back(s);
                    g.trace << s << "; ";
                    continue;
                }
                int dim = g.below(3), rows = 1 + g.wide(4, 40),
                    cols = 1 + g.wide(4, 40);
                bool scalar = dim == 0 && g.rare(3);
                int size = dim < 2 ? rows : rows * cols;
                if (scalar)
                    size = 1;
                std::vector<double> x;
                int type = g.below(4);
                var d = type == 0 ? var(0) : type == 1 ? var(0l)
                    : type == 2 ? var(0.0f) : var(0.0);
                int off = dim > 0 ? g.below(3) : 0;
                if (!scalar)
                {
                    d.array();
                    d.resize(off + size + off);
                }
                for (int i=0; i<off + size + off; i++)
                {
                    int k = g.range(-20000, 20000);
                    var e = type == 0 ? var(k) : type == 1 ? var((long)k)
                        : type == 2 ? var(k / 8.0f) : var(k / 8.0);
                    if (scalar)
                        d = e;
                    else
                        d.at(i) = e;
                    if (i >= off && i < off + size)
                        x.push_back(type < 2 ? k : k / 8.0);
                }
                if (dim == 1)
                    d = d.view({size}, off);
                if (dim == 2)
                    d = d.view({rows, cols}, off);
                g.trace << canon(d) << "; ";
                auto num = [](double y) {
                    std::ostringstream o;
                    o.precision(17);
                    o << y;
                    return o.str();
                };
                if (dim < 2)
                    for (double y : x)
                        want.push_back("#" + num(y));
                else
                {
                    for (int c=0; c<cols; c++)
                    {
                        std::string s = "#";
                        for (int r=0; r<rows; r++)
                            s += (r ? " " : "") + num(x[r*cols + c]);
                        want.push_back(s);
                    }
                    g.nontrivial(rows > 1 && cols > 1);
                }
                want.push_back("e");
                v.push(d);
            }
            std::string was = canon(v);
            if (file.empty())
                h.f.write(lu::nil, v);
            else
                h.write(file, v);
            EXPECT_EQ(canon(v), was, "what was plotted");
        }
    }
    // Closed, so the program has ended
    EXPECT_EQ(strip(slurp(in("plot.args"))), std::string("-p"), "arguments");
    std::istringstream is(slurp(in("plot")));
    std::string l;
    size_t at = 0;
    bool data = false;
    while (std::getline(is, l))
    {
        // Blank lines in data say nothing
        if (l.empty() && data && (at >= want.size() || want[at] != ""))
            continue;
        EXPECT(at < want.size(), "more than expected: " << pbt::quote(l));
        data = want[at][0] == '#';
        if (!data)
        {
            EXPECT_EQ(pbt::quote(l), pbt::quote(want[at]), "line");
            at++;
            continue;
        }
        std::istringstream a(l), b(want[at].substr(1));
        double x, y;
        int n = 0;
        while (b >> y)
        {
            EXPECT(a >> x, "number missing in " << l);
            EXPECT(std::abs(x - y) <= 1e-5 * std::abs(y), "number: " << l
                   << " expected " << want[at]);
            n++;
        }
        EXPECT(!(a >> l), "more in line than " << want[at]);
        at++;
    }
    EXPECT(at == want.size(), "missing: " << want[at]);
}

PROPERTY(C36, refused, 400,
         "values that can not be plotted and reading are refused; all "
         "non-trivial")
{
    fakeGnuplot();
    Handler h("gnuplot");
    bool threw;
    g.nontrivial();
    if (g.rare(4))
    {
        g.trace << "read";
        threw = throws([&] { var v = h.read("x"); });
        EXPECT(threw, "read");
        return;
    }
    var v;
    v[0] = lu::nil;
    v.pop();
    for (int n=g.below(3); n>0; n--)
        v.push("command");
    var x;
    switch (g.below(4))
    {
    case 0: x = lu::cfloat(1, 1); x.array(); break;
    case 1: x = lu::view({2, 2, 2}, 0.0f); break;
    case 2: x["a"] = 1; break;
    case 3: x[0] = "text"; break;
    }
    v.push(x);
    g.trace << canon(v);
    threw = throws([&] { h.f.write(lu::nil, v); });
    EXPECT(threw, "written");
}

// --- C37 Graphs

PROPERTY(C37, graph, 20000,
         "up to 30 vertices and 60 edges added in any order, repeated and to "
         "themselves, and written up to 3 times; indices and the file; "
         "non-trivial if 2 or more edges")
{
    static lu::graphmodule keep;
    lu::graphmodule m;
    int graphs = 1 + g.rare(4);
    struct G { lu::graph* g; int n = 0; std::multiset<std::pair<int, int>> e; };
    std::vector<G> gs(graphs);
    for (auto& x : gs)
        x.g = &m.create();
    std::string name = in("x.dot");
    auto check = [&](G& x) {
        x.g->writeGraphViz(mk(name));
        std::istringstream is(slurp(name));
        std::string l;
        int vertices = 0;
        std::multiset<std::pair<int, int>> e;
        EXPECT(std::getline(is, l) && l.substr(0, 7) == "digraph", "header "
               << l);
        bool end = false;
        while (std::getline(is, l))
        {
            EXPECT(!end, "more after the end");
            int a, b;
            char c;
            if (sscanf(l.c_str(), "%d -> %d %c", &a, &b, &c) == 3 && c == ';')
                e.insert({a, b});
            else if (sscanf(l.c_str(), "%d %c", &a, &c) == 2 && c == ';')
                EXPECT_EQ(a, vertices++, "vertex");
            else if (strip(l) == "}")
                end = true;
            else
                EXPECT(strip(l).empty(), "line " << l);
        }
        EXPECT(end, "no end");
        EXPECT_EQ(vertices, x.n, "number of vertices");
        EXPECT(e == x.e, "edges: " << e.size() << " expected " << x.e.size());
    };
    for (int n=g.wide(90, 900); n>0; n--)
    {
        G& x = gs[g.below(graphs)];
        if (x.n == 0 || g.rare(3))
        {
            g.trace << "v ";
            EXPECT_EQ(x.g->addVertex(), (ind)x.n, "index of vertex");
            x.n++;
        }
        else
        {
            int a = g.below(x.n), b = g.below(x.n);
            g.trace << a << "-" << b << " ";
            x.g->addEdge(a, b);
            x.e.insert({a, b});
            g.nontrivial(x.e.size() > 1);
        }
        if (g.rare(30))
            check(x);
    }
    for (auto& x : gs)
        check(x);
}

// --- C38 Paths

struct Dir
{
    std::map<std::string, Dir> e;
    bool dir = false;
    bool link = false;
};

static std::string fname(pbt::Gen& g)
{
    static const char* N[] = {"a", "b.txt", ".hidden", "c.d.e", "no ext",
                              "\xc3\xa9.x", "x.", "..y", "A", "-r", "b.TXT",
                              "\"q\""};
    if (g.flip())
        return N[g.below(12)];
    std::string s;
    for (int n=1+g.below(5); n>0; n--)
        s += (char)('a' + g.below(4));
    return g.flip() ? s + "." + s.substr(0, 1) : s;
}

static void genDir(pbt::Gen& g, Dir& d, const std::string& at, int depth,
                   int& budget)
{
    d.dir = true;
    for (int n=g.wide(7, 60); n>0 && budget>0; n--)
    {
        std::string f = fname(g);
        if (d.e.count(f))
            continue;
        budget--;
        std::string p = at + "/" + f;
        Dir& x = d.e[f];
        g.trace << p.substr(pbt::scratch().size());
        if (depth > 0 && g.rare(3))
        {
            g.trace << "/ ";
            fs::create_directory(p);
            genDir(g, x, p, depth-1, budget);
        }
        else if (g.rare(6))
        {
            // To what's beside it and complete, or to nothing
            std::string to = "nowhere";
            for (auto& y : d.e)
                if (y.first != f && g.flip())
                {
                    to = y.first;
                    x.e = y.second.e;
                    x.dir = y.second.dir;
                    break;
                }
            x.link = true;
            g.trace << "@" << to << " ";
            fs::create_symlink(g.flip() ? to : at + "/" + to, p);
        }
        else
        {
            g.trace << " ";
            spit(p, "x");
        }
    }
}

static std::string bits(const std::string& at, const std::string& f)
{
    // The extension starts with the last dot, unless that is the first letter
    size_t k = f.rfind('.');
    bool ext = k != std::string::npos && k > 0;
    return "[" + pbt::quote(at) + ", " + pbt::quote(ext ? f.substr(0, k) : f)
        + ", " + pbt::quote(ext ? f.substr(k) : "") + "]";
}

typedef std::map<std::string, std::string> Names;

static void list(const Dir& d, const std::string& at, bool deep, bool val,
                 Names& n)
{
    for (auto& x : d.e)
    {
        std::string p = at + (at.back() == '/' ? "" : "/") + x.first;
        n[p] = val ? bits(at.back() == '/' ? at.substr(0, at.size()-1) : at,
                          x.first) : "nil";
        // The recursive list doesn't follow links
        if (deep && x.second.dir && !x.second.link)
            list(x.second, p, deep, val, n);
    }
}

static std::string show(const Names& n)
{
    std::string s;
    for (auto& x : n)
        s += (s.empty() ? "" : ", ") + pbt::quote(x.first) + ": " + x.second;
    return n.empty() ? "nil" : "{" + s + "}";
}

// (The nested list does follow links)
static std::string show(const Dir& d)
{
    if (d.e.empty())
        return "nil";
    std::string s;
    for (auto& x : d.e)
        s += (s.empty() ? "" : ", ") + pbt::quote(x.first) + ": "
            + show(x.second);
    return "{" + s + "}";
}

PROPERTY(C38, path, 6000,
         "directory trees of up to 30 files, directories and links to those to "
         "depth 4, with names of every form; the flat, recursive and nested "
         "lists, with and without the parts of each name; non-trivial if "
         "nested")
{
    static lu::pathmodule keep;
    std::string root = in("root");
    fs::remove_all(root);
    fs::create_directory(root);
    Dir d;
    int budget = 30;
    genDir(g, d, root, 4, budget);
    // Absolute, by way of the current directory, or neither
    std::string at = root;
    int how = g.below(4);
    if (how == 1)
    {
        if (chdir(root.c_str()))
            pbt::fail("chdir");
        at = ".";
    }
    else if (how == 2)
    {
        if (chdir(pbt::scratch().c_str()))
            pbt::fail("chdir");
        at = "root";
    }
    else if (how == 3)
    {
        if (chdir(root.c_str()))
            pbt::fail("chdir");
        at = fs::current_path().string();
    }
    if (how < 3 && g.rare(4))
        at += "/";
    lu::pathmodule m;
    lu::path& p = how == 3 ? m.create() : m.create(mk(at));
    for (int val=0; val<2; val++)
    {
        Names n;
        list(d, at, false, val, n);
        EXPECT_EQ(canon(p.dir(val)), show(n), "dir");
        n.clear();
        list(d, at, true, val, n);
        EXPECT_EQ(canon(p.rdir(val)), show(n), "rdir");
    }
    EXPECT_EQ(canon(p.tree()), show(d), "tree");
    for (auto& x : d.e)
        g.nontrivial(!x.second.e.empty());
    // What is not there is refused; a file is its own recursive list
    if (at.back() == '/')
        at.pop_back();
    lu::path& none = m.create(mk(at + "/not there"));
    EXPECT(throws([&] { none.dir(); }), "dir of nothing");
    EXPECT(throws([&] { none.rdir(); }), "rdir of nothing");
    EXPECT(throws([&] { none.tree(); }), "tree of nothing");
    spit(root + "/some.file", "");
    lu::path& file = m.create(mk(at + "/some.file"));
    Names n;
    n[at + "/some.file"] = "nil";
    EXPECT_EQ(canon(file.rdir()), show(n), "rdir of a file");
    n[at + "/some.file"] = bits(at, "some.file");
    EXPECT_EQ(canon(file.rdir(true)), show(n), "rdir of a file");
    if (chdir("/"))
        pbt::fail("chdir");
    fs::remove_all(root);
}

// --- C39 Transfers

static std::string bytes(pbt::Gen& g, int max)
{
    std::string s;
    int n = g.sized(max);
    uint64_t x = g.draw(1000) + 1;
    for (int i=0; i<n; i++)
    {
        x = x * 6364136223846793005ull + 1442695040888963407ull;
        s += (char)(x >> 56);
    }
    return s;
}

PROPERTY_NOLEAK(C39, file, 4000,
                "files of up to 100000 bytes of any value, by up to 3 "
                "transfers of the same or another object; missing ones are "
                "refused; non-trivial if of more than one block of 16384")
{
    static lu::curlmodule keep;
    lu::curlmodule m;
    lu::curl* c = &m.create();
    for (int n=1+g.below(3); n>0; n--)
    {
        std::string s = bytes(g, g.rare(3) ? 100000 : 100);
        std::string name = in("transfer");
        spit(name, s);
        g.trace << s.size() << ":" << pbt::quote(s.substr(0, 8)) << " ";
        if (g.rare(4))
            c = &m.create();
        if (g.rare(4))
        {
            g.trace << "missing ";
            EXPECT(throws([&] { var v = c->transfer(mk("file://" + name
                                                       + ".none")); }),
                   "missing file");
        }
        var v = c->transfer(mk("file://" + name));
        EXPECT(v.defined() && v.atype() == lu::TYPE_CHAR, "type");
        EXPECT_EQ((size_t)v.size(), s.size(), "size");
        EXPECT(std::string(v.str(), v.size()) == s, "content");
        g.nontrivial(s.size() > 16384);
    }
}

PROPERTY_NOLEAK(C39, http, 600,
                "bodies of up to 100000 bytes sent by a server here in pieces "
                "of any size, or cut short, which is refused; non-trivial if "
                "in 2 or more pieces")
{
    static lu::curlmodule keep;
    for (const char* e : {"http_proxy", "all_proxy", "ALL_PROXY"})
        unsetenv(e);
    std::string s = bytes(g, g.rare(3) ? 100000 : 1000);
    std::vector<size_t> piece;
    size_t left = s.size();
    while (left > 0 && piece.size() < 20)
    {
        size_t k = piece.size() == 19 ? left : 1 + g.below((int)left);
        piece.push_back(k);
        left -= k;
    }
    bool cut = !s.empty() && g.rare(6);
    g.trace << s.size() << " in " << piece.size() << (cut ? " cut" : "");
    int l = socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a;
    memset(&a, 0, sizeof a);
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    socklen_t len = sizeof a;
    if (l < 0 || bind(l, (sockaddr*)&a, sizeof a) || listen(l, 1)
        || getsockname(l, (sockaddr*)&a, &len))
    {
        if (l >= 0)
            close(l);
        return; // No network; that is not what is tested
    }
    timeval tv = {20, 0};
    setsockopt(l, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
    std::thread server([&] {
        int c = accept(l, nullptr, nullptr);
        if (c < 0)
            return;
        char b[4096];
        std::string q;
        while (q.find("\r\n\r\n") == std::string::npos)
        {
            ssize_t k = recv(c, b, sizeof b, 0);
            if (k <= 0)
                break;
            q.append(b, k);
        }
        std::string h = "HTTP/1.1 200 OK\r\nConnection: close\r\n"
            "Content-Length: " + std::to_string(s.size()) + "\r\n\r\n";
        send(c, h.data(), h.size(), MSG_NOSIGNAL);
        size_t at = 0;
        for (size_t k : piece)
        {
            size_t n = cut && at + k == s.size() ? k-1 : k;
            for (size_t d=0; d<n; )
            {
                ssize_t w = send(c, s.data() + at + d, n - d, MSG_NOSIGNAL);
                if (w <= 0)
                    break;
                d += w;
            }
            at += k;
        }
        close(c);
    });
    lu::curlmodule m;
    lu::curl& c = m.create();
    var v;
    std::string url = "http://127.0.0.1:" + std::to_string(ntohs(a.sin_port))
        + "/";
    bool threw = throws([&] { v = c.transfer(mk(url)); });
    server.join();
    close(l);
    EXPECT_EQ(threw, cut, "refused");
    if (!cut)
    {
        EXPECT_EQ((size_t)v.size(), s.size(), "size");
        EXPECT(std::string(v.str(), v.size()) == s, "content");
    }
    g.nontrivial(piece.size() > 1);
}

// --- C40 The loader, and errors

PROPERTY(C40, instances, 20000,
         "up to 3 loaders of up to 6 objects each of a module made here, with "
         "arguments, some of which it refuses; each object is made once with "
         "its own argument and released once with its loader; non-trivial if "
         "2 or more objects")
{
    static lu::module keep(mk("verif"));
    var log[3];
    int objects = 0;
    {
        std::vector<std::unique_ptr<lu::module>> m;
        std::vector<std::vector<int>> want(3);
        std::vector<Told*> told[3];
        int n = 1 + g.below(3);
        for (int i=0; i<n; i++)
        {
            m.emplace_back(new lu::module(mk("verif")));
            log[i]["log"] = var(0);
            log[i]["log"].array();
            log[i]["log"].clear();
        }
        for (int k=g.below(7); k>0; k--)
        {
            int i = g.below(n);
            if (g.rare(4))
            {
                var a;
                bool none = g.flip();
                a[none ? "nothing" : "refuse"] = 1;
                g.trace << i << (none ? " nothing, " : " refused, ");
                EXPECT(throws([&] { m[i]->create(a); }), "refused object");
                continue;
            }
            g.trace << i << ", ";
            bool arg = !g.rare(5);
            Told* t = dynamic_cast<Told*>(arg ? &m[i]->create(log[i])
                                          : &m[i]->create());
            EXPECT(t, "object");
            if (arg)
            {
                objects++;
                want[i].push_back(t->serial());
                EXPECT(t->argument().is(log[i]), "argument");
            }
            else
                EXPECT(!t->argument().defined(), "argument");
            for (int j=0; j<3; j++)
                for (Told* o : told[j])
                    EXPECT(o != t && o->serial() != t->serial(), "the same");
            told[i].push_back(t);
        }
        auto check = [&](int i, bool gone) {
            std::multiset<int> w, h;
            for (int s : want[i])
            {
                w.insert(s);
                if (gone)
                    w.insert(-1 - s);
            }
            var l = log[i]["log"];
            for (int j=0; j<l.size(); j++)
                h.insert(l.at(j).cast<int>());
            EXPECT(w == h, "objects of loader " << i << ": " << canon(l));
        };
        for (int i=0; i<n; i++)
            check(i, false);
        while (!m.empty())
        {
            m.pop_back();
            for (int i=0; i<n; i++)
                check(i, i >= (int)m.size());
        }
    }
    g.nontrivial(objects > 1);
}

PROPERTY(C40, unknown, 4000,
         "modules that do not exist, are libraries but not modules, or are of "
         "another kind are refused with an exception that says so; all "
         "non-trivial")
{
    g.nontrivial();
    switch (g.below(3))
    {
    case 0:
    {
        std::string s = "none" + strip(line(g, 6));
        g.trace << s;
        std::string what;
        try
        {
            lu::module m(mk(s));
        }
        catch (std::exception& e)
        {
            what = e.what();
        }
        EXPECT(!what.empty(), "loaded");
        EXPECT(what.find("lib" + s + ".so") != std::string::npos,
               "message: " << what);
        break;
    }
    case 1:
    {
        g.trace << "not a module";
        bool threw = throws([&] { lu::module m("ube"); });
        EXPECT(threw, "loaded");
        break;
    }
    case 2:
    {
        g.trace << "another kind";
        lu::filemodule m("verif");
        bool threw = throws([&] { m.create(); });
        EXPECT(threw, "made");
        break;
    }
    }
}

PROPERTY(C40, error, 20000,
         "errors of any text, thrown through 0 to 5 functions, copied, and "
         "caught as any base; the text; all non-trivial")
{
    std::string s = line(g, 40, "%/.:");
    g.trace << s;
    g.nontrivial();
    std::function<void(int)> f = [&](int n) {
        if (n > 0)
        {
            var x = mk(s);
            f(n-1);
            return;
        }
        if (g.flip())
            throw lu::error(mk(s));
        lu::varstream o;
        o << s.c_str();
        throw lu::error(o);
    };
    std::string what;
    int how = g.below(3);
    try
    {
        try
        {
            f(g.below(6));
        }
        catch (lu::error& e)
        {
            if (how == 0)
                throw;
            lu::error c = e;
            throw c;
        }
    }
    catch (std::exception& e)
    {
        what = e.what();
    }
    EXPECT(what.find(s) != std::string::npos, "message: "
           << pbt::quote(what));
}
