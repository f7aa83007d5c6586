/* Text at scale */
#include "scale.h"

using namespace scale;

static bool space(char c)
{
    return c == ' ' || (c >= '\t' && c <= '\r');
}

static var pieceArray(const std::vector<std::string>& e)
{
    var v;
    v.resize(0);
    for (auto& s : e)
        v.push(mk(s));
    return v;
}

static void samePieces(const var& v, const std::vector<std::string>& e,
                       const char* what)
{
    EXPECT_EQ((size_t)v.size(), e.size(), "number of texts");
    for (size_t i=0; i<e.size(); i++)
        sameText(text(v.at((int)i)), e[i], what);
}

// Many short ones, a few long ones, or some of each
static int pieceSize(Fill& f, int kind)
{
    return kind == 0 ? f.below(4) : kind == 1 ? f.below(300)
        : f.below(20) ? f.below(10) : f.below(5000);
}

PROPERTY(C12, scale, 80,
         "up to 16384 texts of up to 5000 bytes joined, and split again at a "
         "separator or space, with and without a limit; non-trivial if more "
         "than 300")
{
    int n = size(g, 13), kind = g.below(3);
    Fill f(g);
    std::string sep = kind == 1 ? f.letters(1 + f.below(100)) : ",";
    for (char& c : sep)
        c = c == ',' ? c : (char)(c - 32);
    std::vector<std::string> e;
    std::string all, gaps;
    for (int i=0; i<n && all.size() < 1000000; i++)
    {
        e.push_back(f.letters(1 + pieceSize(f, kind)));
        all += (i ? sep : "") + e.back();
        int k = f.below(30) ? 1 : 1 + f.below(300);
        for (int j=0; j<k && i; j++)
            gaps += " \t\n\v\f\r"[f.below(6)];
        gaps += e.back();
    }
    n = (int)e.size();
    g.trace << n << " of kind " << kind;
    var a = pieceArray(e), s = a.join(sep.c_str());
    sameText(text(s), all, "joined");
    samePieces(s.split(sep.c_str()), e, "split");
    samePieces(mk(gaps).split(), e, "split at space");
    samePieces(a, e, "original");
    int max = 1 + f.below(n);
    std::vector<std::string> first(e.begin(), e.begin() + max - 1);
    std::string rest;
    for (int i=max-1; i<n; i++)
        rest += (i > max-1 ? sep : "") + e[i];
    first.push_back(rest);
    samePieces(s.split(sep.c_str(), max), first, "split to a limit");
    sameText(text(s), all, "joined, after that");
}

PROPERTY(C13, scale, 400,
         "texts of up to 131072 bytes, with up to 65536 spaces at either end, "
         "in upper and lower case and stripped, in place and not; non-trivial "
         "if more than 300")
{
    int n = size(g, 16), left = g.flip() ? 0 : size(g, 15),
        right = g.flip() ? 0 : size(g, 15);
    Fill f(g);
    std::string s, u, l;
    for (int i=0; i<left; i++)
        s += " \t\n\v\f\r"[f.below(6)];
    s += f.bytes(n);
    for (int i=0; i<right; i++)
        s += " \t\n\v\f\r"[f.below(6)];
    for (char c : s)
    {
        u += c >= 'a' && c <= 'z' ? (char)(c - 32) : c;
        l += c >= 'A' && c <= 'Z' ? (char)(c + 32) : c;
    }
    size_t b = 0, e = s.size();
    while (b < e && space(s[b]))
        b++;
    while (e > b && space(s[e-1]))
        e--;
    std::string t = s.substr(b, e - b);
    var v = mk(s);
    sameText(text(lu::toupper(v)), u, "upper case");
    sameText(text(lu::tolower(v)), l, "lower case");
    sameText(text(lu::strip(v)), t, "stripped");
    sameText(text(v), s, "original");
    var w = v;
    int op = f.below(3);
    op == 0 ? v.toupper() : op == 1 ? v.tolower() : v.strip();
    sameText(text(w), op == 0 ? u : op == 1 ? l : t, "in place");
}

PROPERTY(C14, scale, 100,
         "words, numbers and spaces of up to 32768 in all, searched for the "
         "last of them and all numbers replaced by something longer or "
         "shorter; non-trivial if more than 300")
{
    int n = size(g, 14);
    Fill f(g);
    std::string put = f.letters(f.below(12));
    std::string s, e;
    for (int i=0; i<n; i++)
        if (f.below(3))
        {
            std::string w = f.letters(1 + f.below(6)) + " ";
            s += w;
            e += w;
        }
        else
        {
            s += std::to_string(f.below(100000)) + " ";
            e += put + " ";
        }
    var v = mk(s + "=last9=");
    var o = v.search("=([a-z]+)([0-9])=");
    EXPECT(o.defined(), "not found");
    EXPECT_EQ(o.size(), 3, "groups");
    sameText(text(o.at(1)), "last", "group");
    sameText(text(o.at(2)), "9", "group");
    EXPECT(!v.search("=([a-z]+)([0-9])=x").defined(), "found");
    var w = mk(s);
    var m = w.match("[a-z0-9 ]*");
    EXPECT(m.defined(), "does not match");
    EXPECT(!v.match("[a-z0-9 ]*").defined(), "matches");
    w.replace("[0-9]+", put.c_str());
    sameText(text(w), e, "replaced");
}

PROPERTY(C15, scale, 300,
         "texts of up to 65536 code points of all lengths, whole, and damaged "
         "at one place; non-trivial if more than 300")
{
    int n = size(g, 15), kind = g.below(5);
    Fill f(g);
    std::string s;
    std::vector<size_t> at;
    for (int i=0; i<n; i++)
    {
        at.push_back(s.size());
        int k = kind < 4 ? kind : f.below(4);
        int c = k == 0 ? 1 + f.below(0x7f) : k == 1 ? f.range(0x80, 0x7ff)
            : k == 2 ? f.range(0x800, 0xd7ff) : f.range(0x10000, 0x10ffff);
        if (k == 0)
            s += (char)c;
        else
        {
            s += (char)((k == 1 ? 0xc0 : k == 2 ? 0xe0 : 0xf0) | c >> 6 * k);
            for (int j=k-1; j>=0; j--)
                s += (char)(0x80 | ((c >> 6 * j) & 0x3f));
        }
    }
    EXPECT_EQ((long)mk(s).len(), (long)n, "code points");
    std::string d = s;
    d.insert(at[f.below(n)], 1, (char)(f.below(2) ? 0xff : 0x80));
    EXPECT(!mk(d).len(), "damaged, but has a length");
}

PROPERTY(C16, scale, 200,
         "files of up to 16384 lines, or lines of up to 131072 bytes, read "
         "line by line; non-trivial if more than 300")
{
    int n = size(g, 13), kind = g.below(3);
    bool last = g.flip();
    Fill f(g);
    std::vector<std::string> e;
    size_t total = 0;
    if (kind == 2)
        n = f.range(1, 5);
    for (int i=0; i<n && total < 1000000; i++)
    {
        int k = kind == 2 ? (1 << f.range(8, 16)) + f.range(-2, 2)
            : pieceSize(f, kind);
        std::string s;
        for (int j=0; j<k; j++)
            s += (char)f.below(256);
        for (char& c : s)
            if (c == '\n')
                c = 'n';
        total += s.size();
        e.push_back(s);
    }
    if (!last && e.back().empty())
        e.back() = "x";
    std::string s;
    for (size_t i=0; i<e.size(); i++)
        s += e[i] + (last || i+1 < e.size() ? "\n" : "");
    std::stringstream ss(s);
    varstream vs(mk(s));
    std::istream& is = f.below(2) ? (std::istream&)ss : (std::istream&)vs;
    var v;
    for (size_t i=0; i<e.size(); i++)
    {
        EXPECT((bool)v.getline(is), "line " << i << " missing");
        sameText(text(v), e[i], "line");
    }
    EXPECT(!v.getline(is), "a line after the last");
}

PROPERTY(C17, scale, 150,
         "up to 32768 writes to a stream on a string, from empty or not, each "
         "of a number, word or block, then reading it all, by words and from "
         "any place; non-trivial if more than 300")
{
    int n = size(g, 14);
    Fill f(g);
    std::string e = f.below(2) ? "" : f.letters(f.below(3000)) + " ";
    var s = e.empty() ? var("") : mk(e);
    std::vector<std::string> words;
    if (!e.empty())
        words.push_back(e.substr(0, e.size() - 1));
    if (!words.empty() && words[0].empty())
        words.clear();
    varstream vs(s);
    std::string out;
    for (int i=0; i<n && out.size() < 500000; i++)
    {
        std::string w = f.below(3) ? std::to_string(f.range(-1000, 1000000))
            : f.letters(1 + (f.below(50) ? f.below(8) : f.below(2000)));
        words.push_back(w);
        out += w + (f.below(4) ? " " : "\n");
        if (f.below(2))
            vs << w << out.back();
        else
            vs.write(out.data() + out.size() - w.size() - 1, w.size() + 1);
    }
    std::string all = e + out;
    EXPECT(vs.good(), "not good");
    sameText(text(vs), all, "of the stream");
    sameText(text(s), all, "behind the stream");
    varstream& rs = vs;
    if (g.flip())
        rs.seekg(0);
    std::string w;
    for (size_t i=0; i<words.size(); i++)
    {
        EXPECT((bool)(rs >> w), "word " << i << " missing");
        sameText(w, words[i], "word");
    }
    EXPECT(!(rs >> w), "another word");
    for (int i=0; i<20; i++)
    {
        rs.clear();
        int p = f.below((int)all.size());
        rs.seekg(p);
        EXPECT_EQ(rs.get(), (int)(unsigned char)all[p], "byte");
    }
}
