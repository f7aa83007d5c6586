/* Modules at scale */
#include <filesystem>
#include <sys/stat.h>
#include <lube/curl.h>
#include <lube/graph.h>
#include <lube/path.h>
#include "scale.h"

using namespace scale;
namespace fs = std::filesystem;

static void put(std::string& s, uint32_t x, int n)
{
    for (int i=0; i<n; i++)
        s += (char)(x >> (8*i));
}

PROPERTY(C35, scale, 150,
         "sound of up to 131072 frames of 1 to 16 channels, written here and "
         "read, and written and read again; non-trivial if more than 300")
{
    int frames = size(g, 16), channels = g.flip() ? 1 : 1 + g.below(16);
    Fill f(g);
    frames = std::max(frames / channels, 1);
    int n = frames * channels;
    std::vector<int> x;
    std::string d, s = "RIFF";
    for (int i=0; i<n; i++)
    {
        x.push_back(f.range(-32767, 32767));
        put(d, (uint32_t)x[i], 2);
    }
    put(s, (uint32_t)(36 + d.size()), 4);
    s += "WAVEfmt ";
    put(s, 16, 4);
    put(s, 1, 2);
    put(s, channels, 2);
    put(s, 16000, 4);
    put(s, 16000 * channels * 2, 4);
    put(s, channels * 2, 2);
    put(s, 16, 2);
    s += "data";
    put(s, (uint32_t)d.size(), 4);
    spit(in("x.wav"), s + d);
    var a;
    a[lu::nil];
    Handler h("snd", a);
    var v = h.read(in("x.wav"));
    for (int again=0; again<2; again++)
    {
        EXPECT_EQ(v.size(), n, "size");
        EXPECT_EQ(v.atype(), (ind)lu::TYPE_FLOAT, "type");
        if (channels > 1)
            EXPECT(v.dim() == 2 && v.shape(0) == channels
                   && v.shape(1) == frames, "shape");
        for (int c=0; c<channels; c++)
            for (int i=0; i<frames; i++)
            {
                float y = v.ptr<float>()[c*frames + i];
                float e = x[i*channels + c] / 32768.0f;
                EXPECT(std::abs(y - e) <= again * 2.0f / 32768, "channel " << c
                       << " frame " << i << " is " << y << " for " << e);
            }
        if (!again)
        {
            h.write(in("w.wav"), v);
            EXPECT_EQ((size_t)fs::file_size(in("w.wav")) >= d.size(), true,
                      "size of file");
            v = lu::nil;
            v = h.read(in("w.wav"));
        }
    }
}

PROPERTY(C36, scale, 60,
         "vectors of up to 8192 numbers, matrices of up to 128 by 64, and up "
         "to 4096 commands sent to a stand-in for gnuplot; non-trivial if "
         "more than 300")
{
    std::string bin = in("scale-bin"), plot = in("scale-plot");
    fs::create_directory(bin);
    spit(bin + "/gnuplot", "#!/bin/sh\nexec /bin/cat > \"$PBT_SCALE\"\n");
    chmod((bin + "/gnuplot").c_str(), 0755);
    const char* path = getenv("PATH");
    std::string was = path ? path : "";
    setenv("PATH", bin.c_str(), 1);
    setenv("PBT_SCALE", plot.c_str(), 1);
    fs::remove(plot);
    int kind = g.below(3);
    int n = size(g, kind == 0 ? 12 : kind == 1 ? 6 : 11),
        m = kind == 1 ? size(g, 5) : 1;
    Fill f(g);
    g.trace << "kind " << kind;
    std::string e;
    std::vector<int> x = some<int>(f, n * m);
    var v;
    v.resize(0);
    {
        Handler h("gnuplot");
        if (kind == 2)
            for (int i=0; i<n; i++)
            {
                std::string s = "c" + f.letters(f.below(50) ? f.below(20)
                                                : f.below(5000));
                v.push(mk(s));
                e += s + "\n";
            }
        else
        {
            v.push(mk("plot \"-\""));
            e = "plot \"-\"\n";
            var d = array(x);
            v.push(kind == 0 ? d : d.view({n, m}));
            for (int i=0; i<m; i++)
                for (int j=0; j<n; j++)
                    e += std::to_string(kind == 0 ? x[j] : x[j*m + i])
                        + (kind == 0 || j == n-1 ? "\n" : " ");
            e += "e\n";
        }
        h.f.write(lu::nil, v);
    }
    setenv("PATH", was.c_str(), 1);
    // Blank lines say nothing, nor does space at the ends of a line
    std::string got;
    std::istringstream is(slurp(plot));
    std::string l;
    while (std::getline(is, l))
    {
        l = strip(l);
        if (!l.empty())
            got += l + "\n";
    }
    sameText(got, e, "sent");
}

PROPERTY(C37, scale, 100,
         "graphs of up to 8192 vertices and 16384 edges; non-trivial if more "
         "than 300")
{
    static lu::graphmodule keep;
    lu::graphmodule m;
    lu::graph& x = m.create();
    int n = size(g, 12), edges = size(g, 13);
    Fill f(g);
    std::multiset<std::pair<int, int>> e, got;
    int made = 0;
    for (int i=0; i<n; i++)
    {
        EXPECT_EQ(x.addVertex(), (ind)i, "index of vertex");
        for (; made < (long)edges * (i+1) / n; made++)
        {
            int a = f.below(i+1), b = f.below(i+1);
            x.addEdge(a, b);
            e.insert({a, b});
        }
    }
    x.writeGraphViz(mk(in("x.dot")));
    std::istringstream is(slurp(in("x.dot")));
    std::string l;
    int vertices = 0;
    while (std::getline(is, l))
    {
        int a, b;
        char c;
        if (sscanf(l.c_str(), "%d -> %d %c", &a, &b, &c) == 3)
            got.insert({a, b});
        else if (sscanf(l.c_str(), "%d %c", &a, &c) == 2)
            EXPECT_EQ(a, vertices++, "vertex");
    }
    EXPECT_EQ(vertices, n, "vertices");
    EXPECT(got == e, got.size() << " edges for " << e.size());
}

PROPERTY(C38, scale, 30,
         "directories of up to 1024 files, names of up to 200 bytes, and "
         "depth of up to 15; non-trivial if more than 300 or deep")
{
    static lu::pathmodule keep;
    std::string root = in("scale-root");
    fs::remove_all(root);
    fs::create_directory(root);
    int n = size(g, 9), deep = g.below(16);
    Fill f(g);
    g.trace << "deep " << deep;
    g.nontrivial(deep > 4);
    std::set<std::string> flat, all;
    std::string in = root;
    for (int i=0; i<deep; i++)
    {
        in += "/" + f.letters(1 + f.below(f.below(3) ? 8 : 150));
        fs::create_directory(in);
        all.insert(in);
        if (i == 0)
            flat.insert(in);
    }
    for (int i=0; i<n; i++)
    {
        bool down = f.below(2);
        std::string s = (down ? in : root) + "/" + std::to_string(i) + "."
            + f.letters(1 + f.below(f.below(9) ? 8 : 200));
        spit(s, "");
        all.insert(s);
        if (!down || !deep)
            flat.insert(s);
    }
    lu::pathmodule m;
    lu::path& p = m.create(mk(root));
    auto names = [](const var& v) {
        std::string s;
        for (int i=0; i<v.size(); i++)
            s += text(v.key(i)) + "\n";
        return s;
    };
    auto want = [](const std::set<std::string>& e) {
        std::string s;
        for (auto& x : e)
            s += x + "\n";
        return s;
    };
    sameText(names(p.dir()), want(flat), "dir");
    sameText(names(p.rdir()), want(all), "rdir");
    var t = p.tree();
    EXPECT_EQ(t.size(), (int)flat.size(), "tree");
    fs::remove_all(root);
}

PROPERTY_NOLEAK(C39, scale, 60,
                "files of up to 4194304 bytes transferred; non-trivial if "
                "more than 300")
{
    static lu::curlmodule keep;
    lu::curlmodule m;
    int n = size(g, 21);
    Fill f(g);
    std::string s = f.bytes(n), name = in("scale-transfer");
    spit(name, s);
    lu::curl& c = m.create();
    sameText(text(c.transfer(mk("file://" + name))), s, "content");
    s = f.bytes(f.below(100));
    spit(name, s);
    sameText(text(c.transfer(mk("file://" + name))), s, "content of another");
}

PROPERTY(C40, scale, 100,
         "up to 512 objects of a module, and errors of up to 131072 bytes; "
         "non-trivial if more than 300")
{
    int n = size(g, 16);
    Fill f(g);
    std::string s = f.letters(n);
    try
    {
        throw lu::error(mk(s));
    }
    catch (std::exception& e)
    {
        std::string w = e.what();
        sameText(w.substr(0, n + 2), "\"" + s + "\"", "text of error");
    }
    n = size(g, 8);
    static lu::graphmodule keep;
    lu::graphmodule m;
    std::vector<lu::graph*> x;
    for (int i=0; i<n; i++)
        x.push_back(&m.create());
    for (int k=0; k<3; k++)
        for (int i=0; i<n; i++)
            EXPECT_EQ(x[i]->addVertex(), (ind)k, "index of vertex");
}
