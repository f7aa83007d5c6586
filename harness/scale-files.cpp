/* Files at scale */
#include <getopt.h>
#include "scale.h"
#include <lube/config.h>
#include <lube/data.h>

using namespace scale;

// Mostly short, now and then long
static int lineSize(Fill& f, int kind)
{
    return kind == 0 ? f.below(5) : kind == 1 ? f.below(200)
        : f.below(30) ? f.below(20) : f.below(20000);
}

PROPERTY(C31, scale, 150,
         "text files of up to 16384 lines of up to 20000 bytes read, and "
         "written from as many; ini files of up to 4096 entries in up to 1024 "
         "sections; non-trivial if more than 300")
{
    int kind = g.below(3);
    bool ini = g.flip();
    int n = size(g, ini ? 11 : 13);
    Fill f(g);
    std::string doc, name = in(ini ? "x.ini" : "x.txt");
    if (!ini)
    {
        std::vector<std::string> l;
        for (int i=0; i<n && doc.size() < 500000; i++)
        {
            l.push_back(f.letters(lineSize(f, kind)));
            doc += l.back() + "\n";
        }
        spit(name, doc);
        Handler h("txt");
        var v = h.read(name);
        EXPECT_EQ(v.size(), (int)l.size(), "lines");
        for (size_t i=0; i<l.size(); i++)
            sameText(text(v.at((int)i)), l[i], "line");
        h.write(name, v);
        std::string e;
        for (auto& s : l)
            e += "\"" + s + "\"\n";
        sameText(slurp(name), e, "written");
        return;
    }
    std::map<std::string, std::map<std::string, std::string>> m;
    std::string section = "s";
    doc = "[s]\n";
    for (int i=0; i<n && doc.size() < 500000; i++)
    {
        if (f.below(4) == 0)
        {
            section = "s" + std::to_string(f.below(1024));
            doc += "[" + section + "]\n";
        }
        std::string k = "k" + std::to_string(f.below(9000)),
            v = "v" + f.letters(lineSize(f, kind));
        if (f.below(5) == 0)
            doc += "; " + f.letters(lineSize(f, kind)) + "\n";
        m[section][k] = v;
        doc += k + (f.below(2) ? " = " : ":") + v + "\n";
    }
    spit(name, doc);
    Handler h("ini");
    var v = h.read(name);
    std::string e;
    for (auto& x : m)
    {
        e += (e.empty() ? "{" : ", ") + pbt::quote(x.first) + ": ";
        std::string s;
        for (auto& y : x.second)
            s += (s.empty() ? "{" : ", ") + pbt::quote(y.first) + ": "
                + pbt::quote(y.second);
        e += s + "}";
    }
    sameText(canon(v), e + "}", "read");
}

PROPERTY(C32, scale, 150,
         "command lines of up to 2048 words of up to 5000 bytes, options of 20 "
         "kinds with and without argument; non-trivial if more than 300")
{
    int n = size(g, 10), kind = g.below(3);
    Fill f(g);
    std::vector<std::string> arg = {"program"}, rest;
    std::string e;
    for (int i=0; i<n; i++)
    {
        char c = (char)('a' + f.below(20));
        std::string a = "v" + f.letters(lineSize(f, kind) / 4);
        if (c >= 'p')
        {
            rest.push_back(a);
            arg.push_back(a);
        }
        else if (c >= 'h')
        {
            if (f.below(2))
                arg.push_back(std::string("-") + c + a);
            else
            {
                arg.push_back(std::string("-") + c);
                arg.push_back(a);
            }
            e += c + a + "\n";
        }
        else
        {
            arg.push_back(std::string("-") + c);
            e += c + std::string("\n");
        }
    }
    std::vector<char*> p;
    for (auto& s : arg)
        p.push_back(&s[0]);
    p.push_back(nullptr);
    std::string given = e;
    opterr = 0;
    lu::Option opt((int)arg.size(), p.data(), mk("abcdefgh:i:j:k:l:m:n:o:"));
    std::string got;
    while (opt)
    {
        char c = (char)(int)opt.get();
        got += c;
        if (c >= 'h')
            got += text(opt.arg());
        got += "\n";
    }
    sameText(got, given, "options");
    var r = opt.args();
    EXPECT_EQ(r.size(), (int)rest.size(), "words left");
    for (size_t i=0; i<rest.size(); i++)
        sameText(text(r.at((int)i)), rest[i], "word left");
}

static std::string escaped(Fill& f, const std::string& s)
{
    std::string r;
    for (char c : s)
        if (c == '<')
            r += "&lt;";
        else if (c == '&')
            r += f.below(2) ? "&amp;" : "&#38;";
        else if (c == '"')
            r += "&quot;";
        else
            r += c;
    return r;
}

static std::string xmlText(Fill& f, int n)
{
    std::string s;
    for (int i=0; i<n; i++)
        s += f.below(20) ? (char)('a' + f.below(26)) : "<&\" "[f.below(4)];
    // So that space at the ends is no matter
    return "t" + s + "t";
}

// The text of all pieces
static std::string joined(const var& d)
{
    std::string s;
    for (int i=0; i<d.size(); i++)
        s += text(d.at(i));
    return s;
}

PROPERTY(C33, scale, 150,
         "a document with a text or attribute of up to 131072 bytes, up to "
         "4096 elements in one, up to 1024 attributes, or depth of up to 512, "
         "read, and written and read; non-trivial if more than 300")
{
    int kind = g.below(5);
    int n = size(g, kind < 2 ? 16 : kind == 2 ? 11 : kind == 3 ? 9 : 8);
    Fill f(g);
    g.trace << "kind " << kind;
    std::string doc, t;
    std::vector<std::string> s;
    switch (kind)
    {
    case 0:
        t = xmlText(f, n);
        doc = "<a>" + escaped(f, t) + "</a>";
        break;
    case 1:
        t = xmlText(f, n);
        doc = "<a x=\"" + escaped(f, t) + "\"/>";
        break;
    case 2:
        doc = "<a>";
        for (int i=0; i<n; i++)
        {
            s.push_back(xmlText(f, f.below(10) ? f.below(6) : f.below(400)));
            doc += f.below(2) ? "<b>" + escaped(f, s[i]) + "</b>"
                : "<b\n>" + escaped(f, s[i]) + "</b >";
        }
        doc += "</a>";
        break;
    case 3:
        doc = "<a";
        for (int i=0; i<n; i++)
        {
            s.push_back(xmlText(f, f.below(10) ? f.below(6) : f.below(400)));
            doc += " n" + std::to_string(i) + "=\"" + escaped(f, s[i]) + "\"";
        }
        doc += "></a>";
        break;
    default:
        for (int i=0; i<n; i++)
            doc += "<d" + std::to_string(i) + ">";
        doc += "deep";
        for (int i=n-1; i>=0; i--)
            doc += "</d" + std::to_string(i) + ">";
    }
    std::string name = in("x.xml");
    spit(name, doc);
    Quiet q;
    Handler h("xml");
    var v = h.read(name);
    for (int again=0; again<2; again++)
    {
        switch (kind)
        {
        case 0:
            sameText(joined(v[lu::DATA]), t, "text");
            break;
        case 1:
            sameText(text(v[lu::ATTR].at("x")), t, "attribute");
            break;
        case 2:
        {
            var d = v[lu::DATA];
            EXPECT_EQ(d.size(), n, "elements");
            for (int i=0; i<n; i++)
            {
                var e = d.at(i);
                sameText(text(e[lu::NAME]), "b", "name");
                sameText(joined(e[lu::DATA]), s[i], "text of element");
            }
            break;
        }
        case 3:
        {
            var a = v[lu::ATTR];
            EXPECT_EQ(a.size(), n, "attributes");
            for (int i=0; i<n; i++)
                sameText(text(a.at(("n" + std::to_string(i)).c_str())), s[i],
                         "attribute");
            break;
        }
        default:
        {
            var e = v;
            for (int i=0; i<n; i++)
            {
                sameText(text(e[lu::NAME]), "d" + std::to_string(i), "name");
                var d = e[lu::DATA];
                EXPECT_EQ(d.size(), 1, "elements in element");
                var x = d.at(0);
                e = lu::nil;
                e = x;
            }
            sameText(text(e), "deep", "innermost");
        }
        }
        if (!again)
        {
            h.write(in("y.xml"), v);
            v = lu::nil;
            v = h.read(in("y.xml"));
        }
    }
}

PROPERTY(C34, scale, 40,
         "files of up to 2048 people with names of up to 5000 bytes and as "
         "many families of up to 100 children; non-trivial if more than 300")
{
    int n = size(g, 10), kind = g.below(3);
    Fill f(g);
    std::string doc = "0 HEAD\n1 SOUR x\n";
    std::vector<std::string> name;
    for (int i=0; i<n; i++)
    {
        name.push_back("N" + f.letters(lineSize(f, kind) / 4));
        doc += "0 @I" + std::to_string(i) + "@ INDI\n1 NAME " + name[i] + "\n";
        if (f.below(3) == 0)
            doc += "1 BIRT\n2 DATE 1 MAY 1900\n2 PLAC p"
                + f.letters(lineSize(f, kind) / 4) + "\n";
        if (f.below(3) == 0)
        {
            doc += "1 NOTE n" + f.letters(lineSize(f, kind) / 4) + "\n";
            for (int j=f.below(5); j; j--)
                doc += "2 CONT c" + f.letters(f.below(70)) + "\n";
        }
    }
    std::vector<std::vector<int>> child;
    for (int i=0; i<n/2; i++)
    {
        doc += "0 @F" + std::to_string(i) + "@ FAM\n1 HUSB @I"
            + std::to_string(i) + "@\n1 WIFE @I" + std::to_string(n-1-i)
            + "@\n";
        child.push_back({});
        for (int j=2+f.below(f.below(20) ? 4 : 98); j; j--)
        {
            child[i].push_back(f.below(n));
            doc += "1 CHIL @I" + std::to_string(child[i].back()) + "@\n";
        }
    }
    doc += "0 TRLR\n";
    spit(in("x.ged"), doc);
    Quiet q;
    Handler h("ged");
    var v = h.read(in("x.ged"));
    var p = v.at("Individual");
    EXPECT_EQ(p.size(), n, "people");
    for (int i=0; i<n; i++)
        sameText(text(p.at(i).at("NAME")), name[i], "name");
    if (n < 2)
        return;
    var fam = v.at("Family");
    EXPECT_EQ(fam.size(), (int)child.size(), "families");
    for (size_t i=0; i<child.size(); i++)
    {
        var x = fam.at((int)i);
        EXPECT_EQ(x.at("HUSB").get<int>(), (int)i, "husband");
        EXPECT_EQ(x.at("WIFE").get<int>(), n-1-(int)i, "wife");
        same(x.at("CHIL"), child[i], "children");
    }
}
