/* JSON at scale */
#include "scale.h"

using namespace scale;

static std::string quoted(const std::string& s)
{
    std::string r = "\"";
    for (char c : s)
    {
        if (c == '"' || c == '\\')
            r += '\\';
        r += c;
    }
    return r + '"';
}

static std::string plain(Fill& f, int n)
{
    std::string s;
    for (int i=0; i<n; i++)
        s += f.below(10) ? (char)('a' + f.below(26)) : "\"\\ {}[]:,"[f.below(9)];
    return s;
}

static var parse(const std::string& s, bool std)
{
    var y;
    if (std)
    {
        std::istringstream is(s);
        is >> y;
    }
    else
    {
        varstream is(mk(s));
        is >> y;
    }
    return y;
}

static std::string print(const var& v)
{
    std::ostringstream os;
    os << v;
    return os.str();
}

// Without white space that is not in a string
static std::string squeeze(const std::string& s)
{
    std::string r;
    bool in = false;
    for (size_t i=0; i<s.size(); i++)
    {
        if (in && s[i] == '\\')
            r += s[i++];
        else if (s[i] == '"')
            in = !in;
        else if (!in && (s[i] == ' ' || s[i] == '\n'))
            continue;
        r += s[i];
    }
    return r;
}

/*
 * Something big and what it is when printed; what is read back must compare
 * equal to it, and print the same.
 */
static void document(pbt::Gen& g, bool toRead)
{
    int kind = g.below(6);
    int n = size(g, kind == 0 ? 16 : kind == 4 ? 11 : kind == 5 ? 9 : 13);
    Fill f(g);
    g.trace << "kind " << kind;
    var v;
    std::string e;
    switch (kind)
    {
    case 0:
    {
        std::string s = plain(f, n);
        v = mk(s);
        e = quoted(s);
        break;
    }
    case 1:
        v = 0l;
        v.array();
        v.resize(n + 1);
        for (int i=0; i<n+1; i++)
        {
            long x = f.range(-99999, 99999) * (f.below(9) ? 1l : 100003l);
            *v.ptr<long>(i) = x;
            e += (i ? "," : "[") + std::to_string(x);
        }
        e += "]";
        break;
    case 2:
        v = 0.0;
        v.array();
        v.resize(n + 1);
        for (int i=0; i<n+1; i++)
        {
            double x = f.range(-9999, 9999) + 0.25 * f.range(1, 3);
            char b[40];
            snprintf(b, sizeof b, "%g", x);
            *v.ptr<double>(i) = strtod(b, 0);
            e += (i ? "," : "[") + std::string(b);
        }
        e += "]";
        break;
    case 3:
        v.resize(n);
        for (int i=0; i<n; i++)
        {
            std::string s = plain(f, f.below(40) ? f.below(8) : f.below(999));
            long x = f.range(-99, 99);
            int what = f.below(4);
            var t;
            if (what == 0)
                t = mk(s);
            else if (what == 1)
                t = x;
            else if (what == 2)
            {
                t["k"] = mk(s);
                t["l"] = x;
            }
            v[i] = t;
            e += i ? "," : "[";
            e += what == 0 ? quoted(s) : what == 1 ? std::to_string(x)
                : what == 2
                ? "{\"k\":" + quoted(s) + ",\"l\":" + std::to_string(x) + "}"
                : "null";
        }
        e += "]";
        break;
    case 4:
    {
        std::map<std::string, std::string> m;
        for (int i=0; i<n; i++)
        {
            std::string k = f.letters(1 + (f.below(30) ? f.below(6)
                                           : f.below(400)));
            std::string s = plain(f, f.below(9));
            v[k.c_str()] = mk(s);
            m[quoted(k)] = quoted(s);
        }
        for (auto& i : m)
            e += (e.empty() ? "{" : ",") + i.first + ":" + i.second;
        e += "}";
        break;
    }
    default:
        v = 1l;
        e = "1";
        for (int i=0; i<n; i++)
        {
            var t;
            if (i % 3)
            {
                t.resize(1);
                t[0] = v;
                e = "[" + e + "]";
            }
            else
            {
                t["a"] = v;
                e = "{\"a\":" + e + "}";
            }
            v = t;
        }
    }
    std::string s = print(v);
    if (!toRead)
        sameText(squeeze(s), e, "printed");
    else
        s = e;
    var y = parse(s, f.below(2));
    sameText(squeeze(print(y)), e, "read and printed");
    EXPECT(y == v, "read, it is something else");
    if (!toRead)
        sameText(print(v), s, "printed again");
    else if (n < 3000)
    {
        // The same, cut short
        s.pop_back();
        if (kind != 0 || s.back() != '\\')
        {
            bool refused = false;
            try
            {
                parse(s, f.below(2));
            }
            catch (std::exception&)
            {
                refused = true;
            }
            EXPECT(refused, "cut short, but read");
        }
    }
}

PROPERTY(C18, scale, 150,
         "a text of up to 131072 bytes, an array of up to 16384 numbers, "
         "texts and maps, a map of up to 4096, or nesting to 1024, printed "
         "and read back; non-trivial if more than 300")
{
    document(g, false);
}

PROPERTY(C19, scale, 150,
         "the same written by a separate writer without white space, whole "
         "or without its end; non-trivial if more than 300")
{
    document(g, true);
}
