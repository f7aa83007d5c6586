/* Variables, arrays, maps and views at scale */
#include "scale.h"

using namespace scale;

// --- C01, C03: T is the type of the elements

template<class T> static void names(pbt::Gen& g)
{
    int n = size(g, 14), m = size(g, 14);
    Fill f(g);
    std::vector<T> e = some<T>(f, n), was = e;
    var a = array(e);
    var b = a;
    var c = a.copy();
    var d;
    d[1] = a;
    var w = n ? a.view({n}) : var();
    // Change through one of the names or another
    var* name[] = {&a, &b};
    bool emptied = n == 0;
    for (int i=0; i<m; i++)
    {
        T x = make<T>(f);
        var& v = *name[f.below(2)];
        if (!emptied && f.below(3) == 0)
        {
            int k = f.below((int)e.size());
            e[k] = x;
            v[k] = x;
        }
        else
        {
            e.push_back(x);
            v.push(x);
            emptied = false;
        }
    }
    same(a, e, "first name");
    same(b, e, "second name");
    same(d.at(1), e, "element");
    same(c, was, "copy");
    for (int i=0; i<n; i++)
        EXPECT(w.at(i).get<T>() == e[i], "view: element " << i);
    int k = f.below((int)e.size() + 1);
    d[1].resize(k);
    e.resize(k);
    same(a, e, "made smaller by another name");
    c.resize((int)was.size() + m);
    c.resize((int)was.size());
    same(c, was, "copy made bigger and smaller");
    same(b, e, "name after the copy changed");
}

PROPERTY(C01, scale, 200,
         "arrays of up to 32768 elements of 6 types changed up to 32768 times "
         "through two names, with a copy, an element and a view that refer to "
         "them; non-trivial if more than 300")
{
    switch (g.below(6))
    {
    case 0: names<int>(g); break;
    case 1: names<char>(g); break;
    case 2: names<long>(g); break;
    case 3: names<float>(g); break;
    case 4: names<double>(g); break;
    default: names<cfloat>(g); break;
    }
}

template<class T> static void sequence(pbt::Gen& g)
{
    int n = size(g, 15);
    Fill f(g);
    std::vector<T> e = some<T>(f, n + 1);
    var v = T(e[0]);
    v.array();
    for (int i=1; i<=n; i++)
        v.push(e[i]);
    same(v, e, "pushed");
    for (int ops=1+g.below(8); ops>0; ops--)
    {
        int op = g.below(8);
        int at = f.below((int)e.size() + 1);
        int k = op < 3 ? f.below((int)e.size()) : f.below(20);
        g.trace << "ropusmia"[op] << k << " ";
        T x = make<T>(f);
        switch (op)
        {
        case 0:
            e.resize(k + 1);
            v.resize(k + 1);
            break;
        case 1:
            for (int i=0; i<k && e.size() > 1; i++)
            {
                EXPECT(v.pop().get<T>() == e.back(), "pop");
                e.pop_back();
            }
            break;
        case 2:
            for (int i=0; i<k && e.size() < 60000; i++)
            {
                T y = make<T>(f);
                e.push_back(y);
                v.push(y);
            }
            break;
        case 3:
            for (int i=0; i<k; i++)
            {
                T y = make<T>(f);
                e.insert(e.begin(), y);
                v.unshift(y);
            }
            break;
        case 4:
            for (int i=0; i<k && e.size() > 1; i++)
            {
                EXPECT(v.shift().get<T>() == e.front(), "shift");
                e.erase(e.begin());
            }
            break;
        case 5:
            if (at < (int)e.size() && e.size() > 1)
            {
                EXPECT(v.remove(at).get<T>() == e[at], "remove");
                e.erase(e.begin() + at);
            }
            break;
        case 6:
            e.insert(e.begin() + at, x);
            v.insert(x, at);
            break;
        default:
            if (e.size() < 60000)
            {
                std::vector<T> y = some<T>(f, 1 + f.below(3000));
                e.insert(e.end(), y.begin(), y.end());
                v.append(array(y));
            }
        }
        same(v, e, "sequence");
    }
}

PROPERTY(C03, scale, 120,
         "arrays of up to 65536 elements of 6 types made by push, and then "
         "taken through up to 8 runs of resize, pop, push, unshift, shift, "
         "remove, insert and append; non-trivial if more than 300")
{
    switch (g.below(6))
    {
    case 0: sequence<int>(g); break;
    case 1: sequence<char>(g); break;
    case 2: sequence<long>(g); break;
    case 3: sequence<float>(g); break;
    case 4: sequence<double>(g); break;
    default: sequence<cfloat>(g); break;
    }
}

PROPERTY(C02, scale, 120,
         "arrays of up to 16384 texts, some shared, and maps of up to 4096, "
         "copied, shifted, made bigger and smaller, under sanitizers with "
         "allocation accounting; non-trivial if more than 300")
{
    int n = size(g, 13);
    Fill f(g);
    std::vector<std::string> e;
    var v;
    v[0] = lu::nil;
    v.pop();
    var last;
    for (int i=0; i<n; i++)
    {
        if (i && f.below(4) == 0)
        {
            v.push(last);
            e.push_back(e.back());
            continue;
        }
        e.push_back(f.letters(f.below(12)));
        last.clear();
        last = mk(e.back());
        v.push(last);
    }
    var c = v.copy();
    std::vector<std::string> ce = e;
    for (int ops=1+g.below(6); ops>0; ops--)
    {
        int k = f.below(n + 1);
        switch (g.below(5))
        {
        case 0:
            v.resize(k);
            e.resize(std::min((int)e.size(), k));
            v.resize((int)e.size());
            break;
        case 1:
            for (int i=0; i<20 && !e.empty(); i++)
            {
                EXPECT(text(v.shift()) == e[0], "shift");
                e.erase(e.begin());
            }
            break;
        case 2:
            for (int i=0; i<20; i++)
            {
                e.insert(e.begin(), f.letters(5));
                v.unshift(mk(e[0]));
            }
            break;
        case 3:
            if (!e.empty())
            {
                k = f.below((int)e.size());
                EXPECT(text(v.remove(k)) == e[k], "remove");
                e.erase(e.begin() + k);
            }
            break;
        default:
            k = f.below((int)e.size() + 1);
            e.insert(e.begin() + k, "new");
            v.insert(mk("new"), k);
        }
    }
    EXPECT_EQ((size_t)v.size(), e.size(), "size");
    for (size_t i=0; i<e.size(); i++)
        EXPECT(text(v.at((int)i)) == e[i], "element " << i);
    for (size_t i=0; i<ce.size(); i++)
        EXPECT(text(c.at((int)i)) == ce[i], "element " << i << " of copy");
    // Into a map by position
    var m;
    m[lu::nil];
    for (size_t i=0; i<e.size() && i<2048; i++)
    {
        char key[16];
        sprintf(key, "%06d", (int)i);
        m[key] = v.at((int)i);
    }
    v.clear();
    for (size_t i=0; i<e.size() && i<2048; i++)
        EXPECT(text(m.at((int)i)) == e[i], "value " << i);
}

PROPERTY(C04, scale, 300,
         "texts of up to 65536 bytes made of pieces of up to 32768 that are "
         "appended, inserted, pushed and cut; the bytes, C string and "
         "comparison after each; non-trivial if more than 300")
{
    std::string s;
    Fill f(g);
    var v = "";
    for (int ops=1+g.below(8); ops>0; ops--)
    {
        int n = size(g, 15);
        int op = g.below(6);
        bool zero = g.flip();
        if (op < 4 && (int)s.size() + n > 65536)
            op = 4;
        std::string t = f.bytes(n, zero && op != 1);
        int at = f.below((int)s.size() + 1);
        g.trace << "atipcb"[op] << at << " ";
        switch (op)
        {
        case 0:
            v.append(n, t.data());
            s += t;
            break;
        case 1:
            v.append(t.c_str());
            s += t;
            break;
        case 2:
            v.insert(mk(t), at);
            s.insert(at, t);
            break;
        case 3:
            for (char c : t)
                v.push(c);
            s += t;
            break;
        case 4:
            v.resize(at);
            s.resize(at);
            break;
        default:
            // The same again, out of itself
            if (s.size() <= 20000)
            {
                v.append(v);
                s += s;
            }
        }
        sameText(text(v), s, "text");
        EXPECT(v == mk(s), "not equal to the same text");
        EXPECT(v != mk(s + "x"), "equal to a longer text");
        if (s.find('\0') == std::string::npos)
        {
            EXPECT_EQ(strlen(v.str()), s.size(), "C string");
            EXPECT(v == s.c_str(), "not equal to the C string");
        }
    }
}

PROPERTY(C05, scale, 150,
         "maps of up to 4096 keys, strings or integers, most of them stored "
         "in order of key, looked up, stored again and walked; non-trivial if "
         "more than 300")
{
    int n = size(g, 11);
    Fill f(g);
    bool number = g.flip();
    int step = 1 + g.below(5);
    std::map<std::string, int> e;
    var m;
    m[lu::nil];
    auto key = [&](int i) {
        char s[16];
        sprintf(s, "%08d", i);
        return std::string(s);
    };
    auto store = [&](int k, int x) {
        if (number)
            m[var((long)k)] = x;
        else
            m[mk(key(k))] = x;
        e[key(k)] = x;
    };
    for (int i=0; i<n; i++)
        store(i * step + f.below(step), f.below(1000));
    for (int i=0; i<20; i++)
        store(f.below(n * step + 10), f.below(1000));
    EXPECT_EQ((size_t)m.size(), e.size(), "size");
    int i = 0;
    for (auto& x : e)
    {
        var k = m.key(i);
        if (number)
            EXPECT_EQ(k.get<long>(), atol(x.first.c_str()), "key");
        else
            EXPECT_EQ(text(k), x.first, "key");
        EXPECT_EQ(m.at(i).get<int>(), x.second, "value in order");
        i++;
    }
    for (int j=0; j<200; j++)
    {
        int k = f.below(n * step + 20) - 5;
        if (k < 0)
            continue;
        var q = number ? var((long)k) : mk(key(k));
        auto it = e.find(key(k));
        bool there = it != e.end();
        EXPECT_EQ((bool)m.index(q), there, "index");
        if (there)
            EXPECT_EQ(m.at(q).get<int>(), it->second, "value");
        else
            EXPECT(!m.at(q).defined(), "value of a key that is not there");
    }
    EXPECT_EQ((size_t)m.size(), e.size(), "size after reading");
}

template<class T> static void order(pbt::Gen& g)
{
    int n = size(g, 14);
    Fill f(g);
    std::vector<T> a = some<T>(f, n), b = a;
    int at = n ? f.below(n) : 0;
    int what = g.below(4);
    if (n && what == 0)
        b[at] = (T)(b[at] + 1);
    if (n && what == 1)
        b[at] = (T)(b[at] - 1);
    if (what == 2)
        b.resize(at);
    g.trace << what << " at " << at;
    var va = array(a), vb = array(b);
    bool lt = std::lexicographical_compare(a.begin(), a.end(),
                                           b.begin(), b.end());
    bool gt = std::lexicographical_compare(b.begin(), b.end(),
                                           a.begin(), a.end());
    EXPECT_EQ(va < vb, lt, "less");
    EXPECT_EQ(va > vb, gt, "greater");
    EXPECT_EQ(va == vb, a == b, "equal");
    EXPECT_EQ(va != vb, a != b, "not equal");
    EXPECT_EQ(va <= vb, !gt, "not greater");
    EXPECT_EQ(va >= vb, !lt, "not less");
    same(va, a, "first");
    same(vb, b, "second");
    EXPECT(va.copy() == va, "copy");
}

PROPERTY(C06, scale, 400,
         "arrays of up to 32768 elements of 4 types that differ in one "
         "element, or in length, or not at all, compared by the six "
         "operators; non-trivial if more than 300")
{
    switch (g.below(4))
    {
    case 0: order<int>(g); break;
    case 1: order<long>(g); break;
    case 2: order<float>(g); break;
    default: order<double>(g); break;
    }
}

template<class T> static void sorted(pbt::Gen& g)
{
    int n = size(g, 11);
    Fill f(g);
    int kinds = 1 + f.below(2 * n + 1);
    std::vector<T> a;
    for (int i=0; i<n; i++)
        a.push_back((T)f.below(kinds));
    var v = array(a), r = v.sort();
    same(v, a, "original");
    for (int i=0; i<50; i++)
    {
        T x = (T)f.below(kinds + 2);
        auto it = std::find(a.begin(), a.end(), x);
        EXPECT_EQ((int)v.index(x),
                  it == a.end() ? -1 : (int)(it - a.begin()), "index");
    }
    std::sort(a.begin(), a.end());
    EXPECT_EQ(r.size(), n, "size");
    for (int i=0; i<n; i++)
        EXPECT(r.at(i).template get<T>() == a[i], "sorted: " << i);
}

PROPERTY(C07, scale, 150,
         "arrays of up to 4096 elements of 4 types with any number of "
         "different values sorted and searched; non-trivial if more than 300")
{
    switch (g.below(4))
    {
    case 0: sorted<int>(g); break;
    case 1: sorted<long>(g); break;
    case 2: sorted<float>(g); break;
    default: sorted<double>(g); break;
    }
}

PROPERTY(C08, scale, 400,
         "an element stored up to 32768 beyond the end of nothing, of an "
         "array of numbers, texts or of a nested array; what was there is "
         "kept and there is nothing else; non-trivial if more than 300")
{
    int n = size(g, 14), m = g.flip() ? 1 + g.below(12) : size(g, 12);
    Fill f(g);
    switch (g.below(3))
    {
    case 0:
    {
        var v;
        v[n] = "there";
        EXPECT_EQ(v.size(), n + 1, "size");
        EXPECT_EQ(v.atype(), (ind)lu::TYPE_VAR, "type");
        for (int i=0; i<n; i++)
            EXPECT(!v.at(i).defined(), "element " << i << " made");
        sameText(text(v.at(n)), "there", "last");
        break;
    }
    case 1:
    {
        std::vector<int> e = some<int>(f, m + 1);
        var v = array(e);
        v[m + n + 1] = 7;
        EXPECT_EQ(v.size(), m + n + 2, "size");
        EXPECT_EQ(v.atype(), (ind)lu::TYPE_INT, "type");
        for (size_t i=0; i<e.size(); i++)
            EXPECT_EQ(v.at((int)i).get<int>(), e[i], "kept");
        EXPECT_EQ(v.at(m + n + 1).get<int>(), 7, "last");
        break;
    }
    default:
    {
        var v;
        v["a"][m]["b"][n] = 1.5;
        EXPECT_EQ(v.size(), 1, "size of map");
        EXPECT_EQ(v.at("a").size(), m + 1, "size of array");
        for (int i=0; i<m; i++)
            EXPECT(!v.at("a").at(i).defined(), "element " << i << " made");
        var in = v.at("a").at(m).at("b");
        EXPECT_EQ(in.size(), n + 1, "size of the innermost");
        for (int i=0; i<n; i++)
            EXPECT(!in.at(i).defined(), "element " << i << " made");
        EXPECT_EQ(in.at(n).get<double>(), 1.5, "last");
    }
    }
}

// Texts and numbers become numbers
template<class T> static void casts(pbt::Gen& g)
{
    int n = size(g, 12) + 2;
    Fill f(g);
    std::vector<long> e = some<long>(f, n);
    var v;
    v.presize(n);
    for (int i=0; i<n; i++)
    {
        var x;
        switch (i ? f.below(4) : 0)
        {
        case 0: x = std::to_string(e[i]).c_str(); break;
        case 1: x = (int)e[i]; break;
        case 2: x = (double)e[i]; break;
        default: x = e[i]; break;
        }
        v.push(x);
    }
    lu::Cast<T> cast;
    var r = cast(v);
    EXPECT_EQ(r.size(), n, "size");
    for (int i=0; i<n; i++)
        EXPECT(r.at(i).template get<T>() == (T)e[i], "element " << i);
    EXPECT_EQ(v.size(), n, "size of operand");
    sameText(text(v.at(0)), std::to_string(e[0]), "operand");
}

PROPERTY(C09, scale, 150,
         "arrays of up to 8192 texts and numbers cast to a numeric type; "
         "non-trivial if more than 300")
{
    switch (g.below(4))
    {
    case 0: casts<int>(g); break;
    case 1: casts<long>(g); break;
    case 2: casts<float>(g); break;
    default: casts<double>(g); break;
    }
}

PROPERTY(C11, scale, 200,
         "ranges of up to 32768 of int and long; non-trivial if more than 300")
{
    int n = size(g, 14);
    int step = g.range(1, 5), lo = g.range(-100, 100);
    bool closed = g.flip();
    int hi = lo + n * step + g.below(step);
    std::vector<int> e;
    for (int i=lo; closed ? i <= hi : i < hi; i+=step)
        e.push_back(i);
    var r = closed ? lu::range(lo, hi, step) : lu::irange(lo, hi, step);
    EXPECT_EQ((size_t)r.size(), e.size(), "size");
    if (e.size() > 1)
        same(r, e, "range");
    long big = 1l << 40;
    var q = closed ? lu::range(big + lo, big + hi, (long)step)
        : lu::irange(big + lo, big + hi, (long)step);
    EXPECT_EQ((size_t)q.size(), e.size(), "size of long range");
    for (size_t i=0; i<e.size(); i++)
        EXPECT_EQ(q.at((int)i).get<long>(), big + e[i], "long range");
}

template<class F> static bool refused(F f)
{
    try
    {
        f();
    }
    catch (std::exception&)
    {
        return true;
    }
    return false;
}

PROPERTY(C20, scale, 300,
         "elements at the ends of arrays, matrices and parts of up to 65536 "
         "and just beyond, read by at() and by indices; non-trivial if more "
         "than 300")
{
    int r = size(g, 8) + 1, c = size(g, 8) + 1, off = size(g, 10);
    Fill f(g);
    std::vector<int> e = some<int>(f, off + r*c);
    var v = array(e);
    int n = (int)e.size();
    EXPECT_EQ(v.at(n-1).get<int>(), e[n-1], "last");
    EXPECT(refused([&] { var x; x = v.at(n); }), "beyond the end");
    EXPECT(refused([&] { var x; x = v.at(-1); }), "before the start");
    var w = v.view({r, c}, off);
    EXPECT_EQ(w(0, 0).get<int>(), e[off], "first of matrix");
    EXPECT_EQ(w(r-1, c-1).get<int>(), e[n-1], "last of matrix");
    EXPECT(refused([&] { var x; x = w(r, 0); }), "row beyond");
    EXPECT(refused([&] { var x; x = w(0, c); }), "column beyond");
    EXPECT(refused([&] { var x; x = w(-1, 0); }), "row before");
    EXPECT(refused([&] { var x; x = w(r-1, -1); }), "column before");
    EXPECT(refused([&] { var x; x = w.at(r*c); }), "element beyond");
    EXPECT(refused([&] { v.view({r, c}, off + 1); }), "part beyond");
    EXPECT(refused([&] { v.view({r + 1, c}, off); }), "part too big");
    EXPECT(refused([&] { w.subview(1, r*c); }), "row beyond of a matrix");
    EXPECT(refused([&] { v.remove(n); }), "removed beyond");
    EXPECT(refused([&] { v.insert(1, n + 1); }), "inserted beyond");
    same(v, e, "after what was refused");
}

PROPERTY(C21, scale, 200,
         "matrices and tensors on parts of arrays of up to 65536 elements, "
         "read and written by indices, rows and positions; non-trivial if "
         "more than 300")
{
    int d = 1 + g.below(4), r = size(g, 6) + 1, c = size(g, 6) + 1,
        off = g.flip() ? g.below(5) : size(g, 10);
    Fill f(g);
    std::vector<int> e = some<int>(f, off + d*r*c + g.below(3));
    var v = array(e);
    var w = v.view({d, r, c}, off);
    for (int k=0; k<300; k++)
    {
        int i = f.below(d), j = f.below(r), l = f.below(c), x = f.below(1000);
        int at = off + (i*r + j)*c + l;
        EXPECT_EQ(w(i, j, l).get<int>(), e[at], "by indices");
        switch (f.below(3))
        {
        case 0: w(i, j, l) = x; break;
        case 1: w[at - off] = x; break;
        default: v[at] = x;
        }
        e[at] = x;
    }
    for (int k=0; k<10; k++)
    {
        int i = f.below(d), j = f.below(r);
        var row = w.subview(1, (i*r + j)*c);
        EXPECT_EQ(row.size(), c, "size of row");
        for (int l=0; l<c; l++)
            EXPECT_EQ(row.at(l).get<int>(), e[off + (i*r + j)*c + l],
                      "element of row");
    }
    var x = w.copy();
    for (int i=0; i<d*r*c; i++)
        EXPECT_EQ(x.at(i).get<int>(), e[off + i], "copy");
    same(v, e, "array");
}

PROPERTY(C41, scale, 200,
         "texts, lists of integers and repeated values of up to 65536 "
         "constructed; every element; non-trivial if more than 300")
{
    int n = size(g, 15);
    Fill f(g);
    std::string s = f.bytes(n);
    sameText(text(var(n, s.data())), s, "counted text");
    s = f.bytes(n, false);
    sameText(text(var(s.c_str())), s, "C string");
    std::vector<int> e = some<int>(f, n);
    var v(n, e.data());
    same(v, e, "integers");
    if (n > 1)
    {
        var r(n, 2.5);
        EXPECT(r.atype<double>(), "type of repeated");
        same(r, std::vector<double>(n, 2.5), "repeated");
        var q({n, 2}, 3.0f);
        EXPECT_EQ(q.shape(0), n, "rows");
        same(q, std::vector<float>(2*n, 3.0f), "shaped");
    }
    std::vector<std::string> l;
    std::vector<const char*> p;
    for (int i=0; i<n && i<5000; i++)
        l.push_back(f.letters(f.below(6)));
    for (auto& x : l)
        p.push_back(x.c_str());
    if (!l.empty())
    {
        var t((int)l.size(), p.data());
        p.push_back(nullptr);
        var u((const char* const*)p.data());
        EXPECT_EQ(t.size(), (int)l.size(), "number of texts");
        EXPECT_EQ(u.size(), (int)l.size(), "number of texts to null");
        for (size_t i=0; i<l.size(); i++)
        {
            EXPECT_EQ(text(t.at((int)i)), l[i], "text");
            EXPECT_EQ(text(u.at((int)i)), l[i], "text to null");
        }
    }
}
