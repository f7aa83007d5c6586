/* Laws of single values: comparison, sorting, casts, arithmetic, indices */
#include "history.h"
#include <cmath>

using namespace history;

// --- C06 Comparison

static Val vary(pbt::Gen& g, const Val& x, int depth)
{
    // Something close to x, perhaps the same thing made another way
    if (!x.isArr() || g.rare(5))
        switch (g.below(3))
        {
        case 0: return x;
        case 1: return nearby(g, x);
        default: return genVal(g, depth, false);
        }
    Val r = mArr(x.p->type());
    for (int i=0; i<x.p->size(); i++)
    {
        r.p->s->e.push_back(x.p->at(i));
        if (isMap(x))
            r.p->s->k.push_back(x.p->s->k[i]);
    }
    auto& e = r.p->s->e;
    auto& k = r.p->s->k;
    switch (g.below(6))
    {
    case 0:
        break; // Structurally the same
    case 1:
        if (!e.empty())
        {
            e.pop_back();
            if (isMap(x))
                k.pop_back();
        }
        break;
    case 2:
        if (!e.empty())
        {
            int i = g.below((int)e.size());
            if (isMap(x) || !dense(x.p->type()))
                e[i] = vary(g, e[i], depth-1);
            else
                e[i] = g.flip() ? nearby(g, e[i]) : genSmall(g, x.p->type());
        }
        break;
    case 3:
        if (!isMap(x))
            e.push_back(dense(x.p->type()) ? genSmall(g, x.p->type())
                        : genVal(g, 0, false));
        break;
    case 4:
        // The same values in general storage
        if (dense(x.p->type()) && x.p->type() != TYPE_CDOUBLE)
            r.p->s->type = TYPE_VAR;
        break;
    case 5:
        if (isMap(x) && !k.empty())
        {
            // Change a key, keeping the order
            Val last = k.back();
            k.back() = mStr(std::string(1, (char)255) + genText(g, 3));
            if (k.size() > 1 && compare(k[k.size()-2], k.back()) >= 0)
                k.back() = last;
        }
        break;
    }
    return r;
}

PROPERTY(C06, order, 200000,
         "triples of values of any type, nested or not, of which two are "
         "close variations of the first, compared pairwise with all six "
         "operators against a structural model, and for reflexivity, "
         "symmetry, trichotomy and transitivity; non-trivial if two are "
         "distinct arrays")
{
    Val m[3];
    m[0] = genVal(g, 2, false);
    m[1] = g.rare(4) ? genVal(g, 2, false) : vary(g, m[0], 2);
    m[2] = g.rare(4) ? genVal(g, 2, false) : vary(g, m[g.below(2)], 2);
    var v[3];
    for (int i=0; i<3; i++)
    {
        v[i] = build(m[i]);
        g.trace << show(m[i]) << "; ";
    }
    bool lt[3][3], eq[3][3];
    for (int i=0; i<3; i++)
        for (int j=0; j<3; j++)
        {
            const var& a = v[i];
            const var& b = v[j];
            eq[i][j] = a == b;
            lt[i][j] = a < b;
            int c = compare(m[i], m[j]);
            bool q = equal(m[i], m[j]);
            EXPECT(eq[i][j] == q, "of " << i << " and " << j);
            EXPECT((a != b) == !q, "of " << i << " and " << j);
            EXPECT(lt[i][j] == (c < 0), "of " << i << " and " << j);
            EXPECT((a > b) == (c > 0), "of " << i << " and " << j);
            EXPECT((a <= b) == (c <= 0), "of " << i << " and " << j);
            EXPECT((a >= b) == (c >= 0), "of " << i << " and " << j);
            if (i != j && m[i].isArr() && m[j].isArr() && !q)
                g.nontrivial();
            g.label(i != j && q, "equal");
            g.label(m[i].isArr() && m[j].isArr() && c && !q
                    && m[i].p->size() != m[j].p->size(), "sizes differ");
        }
    for (int i=0; i<3; i++)
        for (int j=0; j<3; j++)
        {
            EXPECT(lt[i][j] + lt[j][i] + eq[i][j] == 1, "trichotomy");
            for (int k=0; k<3; k++)
            {
                EXPECT(!(lt[i][j] && lt[j][k]) || lt[i][k], "transitivity");
                EXPECT(!(eq[i][j] && eq[j][k]) || eq[i][k], "transitivity");
            }
        }
    // A copy is equal; what it is compared with is unchanged
    for (int i=0; i<3; i++)
    {
        var c = v[i].copy();
        EXPECT(c == v[i], "copy");
        std::string s = differs(v[i], m[i]);
        EXPECT(s.empty(), "after comparison " << s);
    }
}

PROPERTY(C06, elements, 100000,
         "elements of arrays and maps compared in place, through references, "
         "and complex and multi-dimensional values compared for equality; "
         "non-trivial if elements compare equal at different places")
{
    int type = g.pick({TYPE_VAR, TYPE_INT, TYPE_CHAR, TYPE_DOUBLE, TYPE_FLOAT,
                TYPE_LONG, TYPE_CFLOAT});
    Val m = mArr(type);
    int n = 1 + g.sized(9);
    for (int i=0; i<n; i++)
        m.p->s->e.push_back(
            i && g.flip() ? m.p->s->e[g.below(i)]
            : i && g.rare(4) ? nearby(g, m.p->s->e[g.below(i)])
            : type == TYPE_VAR ? genVal(g, 1, true)
            : g.flip() ? genScalar(g, type) : genSmall(g, type));
    g.trace << show(m);
    var v = build(m);
    for (int i=0; i<n; i++)
        for (int j=0; j<n; j++)
        {
            bool q = equal(m.p->at(i), m.p->at(j));
            EXPECT_EQ(v[i] == v[j], q, "v[i] == v[j]");
            EXPECT_EQ(v.at(i) != v.at(j), !q, "v.at(i) != v.at(j)");
            var x;
            x = v[j];
            EXPECT_EQ(x == v[i], q, "x == v[i]");
            if (type != TYPE_VAR && type != TYPE_CFLOAT)
                EXPECT_EQ(v[i] < v[j], compare(m.p->at(i), m.p->at(j)) < 0,
                          "v[i] < v[j]");
            if (i != j && q)
                g.nontrivial();
        }
    // Views: equal if shape and values are
    if (type != TYPE_VAR && n >= 2)
    {
        int r = 1 + g.below(n), c = n / r;
        var a = v.view({r, c});
        var b = v.copy().view({r, c});
        EXPECT(a == b, "matrix");
        EXPECT(!(a != b), "matrix");
        if (r * c == n)
            EXPECT(a != v, "matrix and array");
        if (r != c)
            EXPECT(a != v.view({c, r}), "matrices of different shape");
        int k = g.below(r*c);
        Val y = genSmall(g, type);
        b(k / c, k % c) = build(y);
        EXPECT_EQ(a == b, equal(y, m.p->at(k)), "matrix with one change");
    }
}

PROPERTY(C06, shapes, 40000,
         "four arrays or views of a numeric type, of up to 3 dimensions, with "
         "almost the same elements: all six operators for trichotomy and "
         "transitivity, equality just when shape and elements agree, and "
         "order of the elements before that of the shapes; non-trivial if "
         "two have the same elements and different shapes")
{
    int type = g.pick({TYPE_INT, TYPE_CHAR, TYPE_DOUBLE, TYPE_FLOAT,
                TYPE_LONG});
    static const std::vector<std::vector<int>> shapes = {
        {}, {}, {6}, {1, 6}, {6, 1}, {2, 3}, {3, 2}, {1, 2, 3}, {2, 3, 1},
        {6, 1, 1}, {1, 1, 6}, {1, 6, 1}, {5}, {1, 5}, {5, 1}, {7}, {7, 1},
        {2, 2}, {2, 1, 2}};
    const int N = 4;
    std::vector<int> shape[N];
    std::vector<double> e[N];
    var v[N];
    for (int i=0; i<N; i++)
    {
        shape[i] = shapes[g.below((int)shapes.size())];
        int n = shape[i].empty() ? 4 + g.below(4) : 1;
        for (int d : shape[i])
            n *= d;
        for (int k=0; k<n; k++)
            e[i].push_back(i && k < (int)e[0].size() && !g.rare(12) ? e[0][k]
                           : 1 + g.below(2));
        int before = shape[i].empty() ? 0 : g.sized(4);
        int after = shape[i].empty() ? 0 : g.sized(4);
        var a;
        auto push = [&](double x) {
            switch (type)
            {
            case TYPE_INT: a.push((int)x); break;
            case TYPE_CHAR: a.push((char)x); break;
            case TYPE_LONG: a.push((long)x); break;
            case TYPE_FLOAT: a.push((float)x); break;
            default: a.push(x);
            }
        };
        for (int k=0; k<before; k++)
            push(3);
        for (double x : e[i])
            push(x);
        for (int k=0; k<after; k++)
            push(4);
        a.array();
        if (shape[i].empty())
            v[i] = a;
        else
        {
            var s;
            for (int d : shape[i])
                s.push(d);
            v[i] = a.view(s.array(), before);
        }
        g.trace << "[";
        for (int d : shape[i])
            g.trace << d << " ";
        g.trace << "|";
        for (double x : e[i])
            g.trace << " " << x;
        g.trace << "] ";
    }
    // A view of one dimension is no different from an array
    auto dims = [&](int i) {
        std::vector<int> r = shape[i];
        if (r.empty())
            r.push_back((int)e[i].size());
        return r;
    };
    bool lt[N][N], eq[N][N];
    for (int i=0; i<N; i++)
        for (int j=0; j<N; j++)
        {
            const var& a = v[i];
            const var& b = v[j];
            bool q = dims(i) == dims(j) && e[i] == e[j];
            eq[i][j] = a == b;
            lt[i][j] = a < b;
            EXPECT((eq[i][j]) == ( q), "== of " << i << " and " << j);
            EXPECT((a != b) == ( !q), "!= of " << i << " and " << j);
            EXPECT((a <= b) == ( q || lt[i][j]), "<= of " << i << " and " << j);
            EXPECT((a > b) == ( !q && !lt[i][j]), "> of " << i << " and " << j);
            EXPECT((a >= b) == ( !lt[i][j]), ">= of " << i << " and " << j);
            if (e[i] != e[j])
                EXPECT(lt[i][j] == (e[i] < e[j]),
                          "elements of " << i << " and " << j);
            g.nontrivial(!q && e[i] == e[j]);
        }
    for (int i=0; i<N; i++)
        for (int j=0; j<N; j++)
        {
            EXPECT(lt[i][j] + lt[j][i] + eq[i][j] == 1, "trichotomy");
            for (int k=0; k<N; k++)
                EXPECT(!(lt[i][j] && lt[j][k]) || lt[i][k], "transitivity");
        }
    // As keys, and sorted, they are as many as they are different
    var m;
    std::set<int> classes;
    for (int i=0; i<N; i++)
    {
        m[v[i]] = i;
        int c = i;
        for (int j=0; j<i; j++)
            if (eq[i][j])
            {
                c = j;
                break;
            }
        classes.insert(c);
    }
    EXPECT_EQ(m.size(), (ind)classes.size(), "keys");
    for (int i=0; i<m.size(); i++)
        for (int j=i+1; j<m.size(); j++)
            EXPECT(m.key(i) < m.key(j), "order of keys");
    while (m.size() > 0)
    {
        int k = g.below((int)m.size());
        int n = m.size();
        m.remove(k);
        EXPECT_EQ(m.size(), n-1, "size after remove");
        for (int i=0; i<m.size(); i++)
            for (int j=i+1; j<m.size(); j++)
                EXPECT(m.key(i) < m.key(j), "order of keys after remove");
        for (int i=0; i<N; i++)
            for (int j=0; j<(int)e[i].size(); j++)
                EXPECT(v[i].at(j).cast<double>() == e[i][j],
                       "element of a key after remove");
    }
}

// Order of complex values, which is that of the magnitude
static int cOrder(cdouble a, cdouble b)
{
    double x = std::abs(a), y = std::abs(b);
    return x < y ? -1 : x > y ? 1 : 0;
}

PROPERTY(C06, complex, 20000,
         "scalars and arrays of single or double precision complex values, "
         "many of the same magnitude, compared with all six operators as "
         "variables, elements and keys of a map; non-trivial if two of the "
         "same magnitude are different")
{
    bool dbl = g.flip();
    auto gen = [&]() {
        // Magnitudes that are exact in single precision
        static const double t[][2] = {
            {0, 0}, {1, 0}, {0, 1}, {3, 4}, {4, 3}, {5, 0}, {0, 5}, {6, 8},
            {10, 0}, {5, 12}, {12, 5}, {13, 0}, {8, 15}, {0, 17}, {1, 1}};
        const double* p = t[g.below(15)];
        return cdouble(g.flip() ? -p[0] : p[0], g.flip() ? -p[1] : p[1]);
    };
    int n[2] = {1 + g.sized(5), 1 + g.sized(5)};
    std::vector<cdouble> m[2];
    for (int k=0; k<2; k++)
        for (int i=0; i<n[k]; i++)
            m[k].push_back(k && i < n[0] && g.flip() ? m[0][i] : gen());
    var a[2];
    for (int k=0; k<2; k++)
    {
        for (auto& c : m[k])
        {
            g.trace << c;
            if (dbl)
                a[k].append(1, &c);
            else
                a[k].push(cfloat(c));
        }
        g.trace << "; ";
        // A single push on nothing gives a scalar
        a[k].array();
        EXPECT_EQ(a[k].size(), n[k], "size");
    }
    auto check = [&](const var& x, const var& y, int c, bool q) {
        EXPECT_EQ(x == y, q, "==");
        EXPECT_EQ(x != y, !q, "!=");
        EXPECT_EQ(x < y, c < 0, "<");
        EXPECT_EQ(x > y, c > 0, ">");
        EXPECT_EQ(x <= y, c <= 0, "<=");
        EXPECT_EQ(x >= y, c >= 0, ">=");
    };
    for (int i=0; i<n[0]; i++)
        for (int j=0; j<n[1]; j++)
        {
            cdouble x = m[0][i], y = m[1][j];
            int c = cOrder(x, y);
            g.nontrivial(c == 0 && x != y);
            if (dbl)
                check(var(x), var(y), c, x == y);
            else
                check(var(cfloat(x)), var(cfloat(y)), c, x == y);
            check(a[0][i], a[1][j], c, x == y);
            check(a[0].at(i), a[1].at(j), c, x == y);
        }
    int c = 0;
    for (int i=0; i<n[0] && i<n[1] && !c; i++)
        c = cOrder(m[0][i], m[1][i]);
    if (!c)
        c = n[0] < n[1] ? -1 : n[0] > n[1];
    check(a[0], a[1], c, m[0] == m[1]);
    for (int k=0; k<2; k++)
        for (int i=0; i<n[k]; i++)
        {
            cdouble x = dbl ? *a[k].ptr<cdouble>(i)
                : cdouble(*a[k].ptr<cfloat>(i));
            EXPECT_EQ(x, m[k][i], "after comparison");
        }
    // What has the same magnitude is the same key
    var map;
    std::vector<cdouble> keys;
    for (int i=0; i<n[0] && !dbl; i++)
    {
        bool dup = false;
        for (auto& k : keys)
            dup |= k == m[0][i];
        bool tie = false;
        for (auto& k : keys)
            tie |= !dup && cOrder(k, m[0][i]) == 0;
        if (tie)
            continue;
        map[var(cfloat(m[0][i]))] = i;
        if (!dup)
            keys.push_back(m[0][i]);
    }
    EXPECT_EQ(map.size(), (int)keys.size(), "keys");
    for (int i=1; i<map.size(); i++)
        EXPECT(map.key(i-1) < map.key(i), "keys in order");
}

// --- C07 Sorting and searching

PROPERTY(C07, sort, 50000,
         "arrays of up to 60 values (now and then 600) of one or mixed type, "
         "many of them equal or nearly so, sorted by sort() "
         "against a stable sort of the model; the original unchanged; "
         "non-trivial if 3 or more elements not sorted already")
{
    int type = g.pick({TYPE_VAR, TYPE_INT, TYPE_CHAR, TYPE_LONG, TYPE_FLOAT,
                TYPE_DOUBLE});
    Val m = mArr(type);
    int n = g.wide(60, 600);
    int sort = g.below(3);
    for (int i=0; i<n; i++)
        m.p->s->e.push_back(
            i && g.rare(4) ? m.p->s->e[g.below(i)]
            : i && g.rare(8) ? nearby(g, m.p->s->e[g.below(i)])
            : type != TYPE_VAR ? genScalar(g, type)
            : sort == 0 ? mStr(genText(g, 6))
            : sort == 1 ? genScalar(g, TYPE_INT) : genVal(g, 1, false));
    g.trace << show(m);
    var v = build(m);
    std::vector<Val> e(m.p->s->e);
    bool sorted = std::is_sorted(
        e.begin(), e.end(), [](const Val& a, const Val& b) {
            return compare(a, b) < 0; });
    std::stable_sort(e.begin(), e.end(), [](const Val& a, const Val& b) {
        return compare(a, b) < 0; });
    var r = v.sort();
    EXPECT_EQ(r.size(), n, "size of sorted array");
    for (int i=0; i<n; i++)
    {
        // Arrays can be equal with different element types, and change places
        std::string s;
        bool ok = false;
        for (int d=0; d<n && !ok; d++)
            for (int j : {i-d, i+d})
                if (j >= 0 && j < n && !ok && equal(e[j], e[i]))
                {
                    s = differs(r.at(i), e[j]);
                    ok = s.empty();
                }
        EXPECT(ok, "sorted element " << i << " " << s);
    }
    std::string s = differs(v, m);
    EXPECT(s.empty(), "original " << s);

    // Search the original
    for (int k=0; k<8 && n; k++)
    {
        Val x = g.flip() ? m.p->at(g.below(n))
            : type != TYPE_VAR ? genScalar(g, type) : genVal(g, 1, false);
        int want = -1;
        for (int i=0; i<n && want < 0; i++)
            if (equal(m.p->at(i), x))
                want = i;
        ind i = v.index(build(x));
        EXPECT_EQ((int)i, want, "index()");
    }
    g.nontrivial(n >= 3 && !sorted);
}

PROPERTY(C07, inplace, 50000,
         "dense arrays and matrices of up to 200 (rarely 2000) elements sorted in place by "
         "the functor, each row for a matrix; non-trivial if 3 or more "
         "elements not sorted already")
{
    int type = g.pick({TYPE_INT, TYPE_CHAR, TYPE_LONG, TYPE_FLOAT,
                TYPE_DOUBLE});
    Val m = mArr(type);
    int n = 1 + g.wide(200, 2000);
    for (int i=0; i<n; i++)
        m.p->s->e.push_back(i && g.rare(8)
                            ? nearby(g, m.p->s->e[g.below(i)])
                            : genScalar(g, type));
    int rows = g.flip() ? 1 : 1 + g.below(std::min(n, 6));
    int cols = n / rows;
    int off = g.flip() ? 0 : n - rows*cols;
    g.trace << rows << "x" << cols << "@" << off << " of " << show(m);
    var v = build(m);
    auto less = [](const Val& a, const Val& b) { return compare(a, b) < 0; };
    auto& e = m.p->s->e;
    bool sorted = std::is_sorted(e.begin(), e.end(), less);
    if (rows == 1 && g.flip())
    {
        libube::sort(v, v);
        std::stable_sort(e.begin(), e.end(), less);
    }
    else
    {
        var w = v.view({rows, cols}, off);
        libube::sort(w, w);
        for (int r=0; r<rows; r++)
            std::stable_sort(e.begin()+off+r*cols, e.begin()+off+(r+1)*cols,
                             less);
    }
    std::string s = differs(v, m);
    EXPECT(s.empty(), s);
    g.nontrivial(n >= 3 && !sorted);
    g.label(rows > 1, "matrix");
}

// --- C09 Casts

template<class T> static Val toModel(T x);
template<> Val toModel(char x) { return mChar(x); }
template<> Val toModel(int x) { return mInt(x); }
template<> Val toModel(long x) { return mLong(x); }
template<> Val toModel(float x) { return mFloat(x); }
template<> Val toModel(double x) { return mDouble(x); }
template<> Val toModel(cfloat x) { return mCFloat(x); }
template<> Val toModel(cdouble x) { return mCDouble(x); }

static Val castOf(const var& v, int type)
{
    switch (type)
    {
    case TYPE_CHAR: return toModel(v.cast<char>());
    case TYPE_INT: return toModel(v.cast<int>());
    case TYPE_LONG: return toModel(v.cast<long>());
    case TYPE_FLOAT: return toModel(v.cast<float>());
    case TYPE_DOUBLE: return toModel(v.cast<double>());
    case TYPE_CFLOAT: return toModel(v.cast<cfloat>());
    default: return toModel(v.cast<cdouble>());
    }
}

static var functorOf(const var& v, int type)
{
    switch (type)
    {
    case TYPE_CHAR: return libube::castChar(v);
    case TYPE_INT: return libube::castInt(v);
    case TYPE_LONG: return libube::castLong(v);
    case TYPE_FLOAT: return libube::castFloat(v);
    case TYPE_DOUBLE: return libube::castDouble(v);
    case TYPE_CFLOAT: return libube::castCFloat(v);
    default: return libube::castCDouble(v);
    }
}

static int anyType(pbt::Gen& g)
{
    return g.pick({TYPE_INT, TYPE_CHAR, TYPE_LONG, TYPE_FLOAT, TYPE_DOUBLE,
                TYPE_CFLOAT, TYPE_CDOUBLE});
}

/** Full range of the type, as long as it can be cast to the other */
static Val genCastable(pbt::Gen& g, int from, int to)
{
    bool narrow = to == TYPE_CHAR;
    bool fromFloat = from == TYPE_FLOAT || from == TYPE_DOUBLE
        || from == TYPE_CFLOAT || from == TYPE_CDOUBLE;
    bool toInt = to == TYPE_CHAR || to == TYPE_INT || to == TYPE_LONG;
    if ((fromFloat && toInt) || narrow)
    {
        double lim = to == TYPE_CHAR ? 127 : to == TYPE_INT ? 2e9 : 9e18;
        if (g.flip())
            lim = 100;
        double x = (g.below(2000001) - 1000000) / 1e6 * lim;
        switch (from)
        {
        case TYPE_CHAR: return mChar((char)g.below(256));
        case TYPE_INT: return mInt((int)std::min(std::max(x, -2e9), 2e9));
        case TYPE_LONG: return mLong((long)x);
        case TYPE_FLOAT: return mFloat((float)x);
        case TYPE_DOUBLE: return mDouble(x);
        case TYPE_CFLOAT: return mCFloat(cfloat((float)x, genFloat(g)));
        default: return mCDouble(cdouble(x, genDouble(g)));
        }
    }
    if (g.flip())
        return genScalar(g, from);
    double x = (g.below(2000001) - 1000000) * std::pow(10.0, g.range(-12, 12));
    switch (from)
    {
    case TYPE_FLOAT: return mFloat((float)x);
    case TYPE_DOUBLE: return mDouble(x);
    case TYPE_CFLOAT: return mCFloat(cfloat((float)x, genFloat(g)));
    case TYPE_CDOUBLE: return mCDouble(cdouble(x, genDouble(g)));
    default: return genScalar(g, from);
    }
}

PROPERTY(C09, scalars, 120000,
         "a scalar of each of the 7 types, over its range, cast to each of "
         "the 7 types by cast<>() and by the functor, alone or as an element "
         "of an array or map, against the C++ conversion; non-trivial if the "
         "types differ")
{
    int from = anyType(g), to = anyType(g);
    Val x = genCastable(g, from, to);
    g.trace << show(x) << " to " << typeStr(to);
    Val want = World::castTo(x, to);
    var v;
    int how = g.below(4);
    switch (how)
    {
    case 0:
        v = build(x);
        break;
    case 1:
    {
        Val a = mArr(from);
        a.p->s->e = {genSmall(g, from), x, genSmall(g, from)};
        v = build(a);
        var t = v[1];
        EXPECT_EQ(show(castOf(t, to)), show(want), "cast of an element");
        EXPECT_EQ(show(castOf(v.at(1), to)), show(want), "cast of at()");
        v = build(x);
        break;
    }
    case 2:
    {
        var m;
        m["a"] = 1;
        m["b"] = build(x);
        m["c"] = "string";
        EXPECT_EQ(show(castOf(m["b"], to)), show(want), "cast of map value");
        EXPECT_EQ(show(castOf(m.at("b"), to)), show(want), "cast of map value");
        v = build(x);
        break;
    }
    case 3:
        v = build(x);
        break;
    }
    Val got = castOf(v, to);
    EXPECT(equal(got, want), "got " << show(got) << " want " << show(want));
    var f = functorOf(v, to);
    std::string s = differs(f, World::value(want));
    EXPECT(s.empty(), "functor " << s);
    s = differs(v, World::value(x));
    EXPECT(s.empty(), "operand " << s);
    g.nontrivial(from != to);
}

PROPERTY(C09, text, 80000,
         "numbers printed to a string and cast back from it, by cast<>() and "
         "functor, and the functor on an array of strings; non-trivial if the "
         "number is not a small integer")
{
    int to = g.pick({TYPE_INT, TYPE_LONG, TYPE_FLOAT, TYPE_DOUBLE});
    auto gen = [&](std::string& oText) {
        Val x;
        char b[64];
        switch (to)
        {
        case TYPE_INT:
            x = mInt(g.flip() ? g.range(-9, 9)
                     : (int)g.range64(INT32_MIN, INT32_MAX));
            snprintf(b, sizeof b, "%ld", x.i);
            break;
        case TYPE_LONG:
            x = mLong(g.flip() ? g.range(-9, 9)
                      : g.range64(INT64_MIN, INT64_MAX));
            snprintf(b, sizeof b, "%ld", x.i);
            break;
        default:
        {
            double d = (g.below(2000001) - 1000000)
                * std::pow(10.0, g.range(-12, 12));
            x = to == TYPE_FLOAT ? mFloat((float)d) : mDouble(d);
            snprintf(b, sizeof b, g.flip() ? "%.17g" : "%.17e", x.re);
            break;
        }
        }
        oText = std::string(g.rare(4) ? " " : "") + b + (g.rare(4) ? " " : "");
        if (x.re != (long)x.re || x.i > 9 || x.i < -9)
            g.nontrivial();
        return x;
    };
    std::string t;
    Val x = gen(t);
    g.trace << pbt::quote(t) << " as " << typeStr(to);
    var v = t.c_str();
    Val got = castOf(v, to);
    EXPECT(equal(got, x), "got " << show(got) << " want " << show(x));
    std::string s = differs(functorOf(v, to), x);
    EXPECT(s.empty(), "functor " << s);

    // And what the library prints is what it parses
    varstream os;
    os.precision(17);
    os << build(x);
    var p = os;
    got = castOf(p, to);
    EXPECT(equal(got, x), "printed as " << p.str() << " got " << show(got));

    // An array of strings; the elements are converted
    var a;
    std::vector<Val> want;
    int n = 1 + g.below(5);
    for (int i=0; i<n; i++)
    {
        want.push_back(gen(t));
        g.trace << " " << pbt::quote(t);
        var e = t.c_str();
        a.push(e);
    }
    var r = functorOf(a, to);
    EXPECT_EQ(r.size(), n, "size of functor of array");
    for (int i=0; i<n; i++)
    {
        std::string s = differs(r.at(i), want[i]);
        EXPECT(s.empty(), "element " << i << " " << s);
    }
}

PROPERTY(C09, rejects, 30000,
         "text that is not a number, arrays of more than one element and maps "
         "cast to a number; all must raise an exception and leave the operand "
         "alone; non-trivial if it's an array")
{
    int to = g.pick({TYPE_INT, TYPE_LONG, TYPE_FLOAT, TYPE_DOUBLE});
    Val x;
    switch (g.below(3))
    {
    case 0:
        x = mStr(g.pick<const char*>({"", " ", "x", "-", "+", ".", "e5", "--3",
                        "abc", "\n"}));
        break;
    case 1:
    {
        int t = g.pick({TYPE_INT, TYPE_DOUBLE, TYPE_LONG, TYPE_FLOAT});
        x = mArr(t);
        int n = 2 + g.below(5);
        for (int i=0; i<n; i++)
            x.p->s->e.push_back(genSmall(g, t));
        g.nontrivial();
        break;
    }
    case 2:
        x = mArr(TYPE_VAR);
        for (int i=2+g.below(3); i>0; i--)
            x.p->s->e.push_back(mStr(genText(g, 4)));
        g.nontrivial();
        break;
    }
    g.trace << show(x) << " to " << typeStr(to);
    var v = build(x);
    bool threw = false;
    try
    {
        castOf(v, to);
    }
    catch (std::exception& e)
    {
        threw = true;
    }
    EXPECT(threw, "cast of " << show(x));
    std::string s = differs(v, x);
    EXPECT(s.empty(), "operand " << s);
}

// --- C10 Scalar arithmetic

static bool close(const Val& a, const Val& b)
{
    if (a.t != b.t)
        return false;
    double eps = (a.t == TYPE_FLOAT || a.t == TYPE_CFLOAT) ? 2e-6 : 1e-14;
    switch (a.t)
    {
    case TYPE_CHAR: case TYPE_INT: case TYPE_LONG:
        return a.i == b.i;
    default:
    {
        double m = std::abs(cdouble(b.re, b.im));
        return std::abs(cdouble(a.re - b.re, a.im - b.im)) <= eps * m + 1e-30;
    }
    }
}

template<class T> static T arith(int op, T a, T b)
{
    switch (op)
    {
    case 0: return a + b;
    case 1: return a - b;
    case 2: return a * b;
    default: return a / b;
    }
}

static Val arithOf(int op, const Val& a, const Val& b)
{
    switch (a.t)
    {
    case TYPE_CHAR: return mChar((char)arith<int>(op, (char)a.i, (char)b.i));
    case TYPE_INT: return mInt(arith<int>(op, a.i, b.i));
    case TYPE_LONG: return mLong(arith<long>(op, a.i, b.i));
    case TYPE_FLOAT: return mFloat(arith<float>(op, a.re, b.re));
    case TYPE_DOUBLE: return mDouble(arith<double>(op, a.re, b.re));
    case TYPE_CFLOAT: return mCFloat(arith<cfloat>(
            op, cfloat(a.re, a.im), cfloat(b.re, b.im)));
    default: return mCDouble(arith<cdouble>(
            op, cdouble(a.re, a.im), cdouble(b.re, b.im)));
    }
}

static bool zero(const Val& x)
{
    return x.i == 0 && x.re == 0 && x.im == 0;
}

static Val fromVar(const var& v, int type)
{
    switch (type)
    {
    case TYPE_CHAR: return mChar(v.get<char>());
    case TYPE_INT: return mInt(v.get<int>());
    case TYPE_LONG: return mLong(v.get<long>());
    case TYPE_FLOAT: return mFloat(v.get<float>());
    case TYPE_DOUBLE: return mDouble(v.get<double>());
    case TYPE_CFLOAT: return mCFloat(v.get<cfloat>());
    default: return mCDouble(v.get<cdouble>());
    }
}

PROPERTY(C10, scalars, 300000,
         "two scalars of any of the 7 types each under + - * / and their "
         "assigning forms, named, as elements of a dense array, or as values "
         "of a map, against C++ arithmetic in the type of the left operand; "
         "non-trivial if the types differ")
{
    int ta = anyType(g), tb = anyType(g);
    int op = g.below(4);
    Val a = genSmall(g, ta), b = genSmall(g, tb);
    if (ta == TYPE_CHAR || tb == TYPE_CHAR)
    {
        // So that the cast to char is defined
        if (!a.i)
            a.re = std::abs(a.re);
    }
    Val c = World::castTo(b, ta);
    if (op == 3 && zero(c))
        return;
    Val want = arithOf(op, a, c);
    const char* ops = "+-*/";
    g.trace << show(a) << " " << ops[op] << " " << show(b);
    var x, y, r;
    x = build(a);
    y = build(b);
    switch (op)
    {
    case 0: r = x + y; break;
    case 1: r = x - y; break;
    case 2: r = x * y; break;
    case 3: r = x / y; break;
    }
    auto check = [&](const var& r, const char* what) {
        EXPECT(r.defined(), what << " is undefined");
        EXPECT(r.atype() == ta && r.size() == 1, what << " has type "
               << typeStr(r.atype()));
        EXPECT(ta == TYPE_CDOUBLE || r.type() == ta, what << " has type "
               << typeStr(r.type()));
        Val z = fromVar(r, ta);
        EXPECT(close(z, want), what << " is " << show(z) << ", expected "
               << show(want));
    };
    check(r, "result");
    std::string s = differs(x, World::value(a));
    EXPECT(s.empty(), "left operand " << s);
    s = differs(y, World::value(b));
    EXPECT(s.empty(), "right operand " << s);

    auto inplace = [&](var& z) {
        switch (op)
        {
        case 0: z += y; break;
        case 1: z -= y; break;
        case 2: z *= y; break;
        case 3: z /= y; break;
        }
    };
    switch (g.below(3))
    {
    case 0:
    {
        // A scalar is a value: another var with the same value is unchanged.
        // Except that a cdouble is an array
        var z;
        z = x;
        var w;
        w = z;
        inplace(z);
        check(z, "result in place");
        if (ta != TYPE_CDOUBLE)
        {
            s = differs(w, a);
            EXPECT(s.empty(), "other var " << s);
        }
        break;
    }
    case 1:
    {
        if (ta == TYPE_CDOUBLE)
            break;
        Val m = mArr(ta);
        int n = 2 + g.below(5), k = g.below(n);
        for (int i=0; i<n; i++)
            m.p->s->e.push_back(i == k ? a : genSmall(g, ta));
        var z = build(m);
        var e = z[k];
        inplace(e);
        check(z.at(k), "element in place");
        m.p->s->e[k] = fromVar(z.at(k), ta);
        s = differs(z, m);
        EXPECT(s.empty(), "rest of the array " << s);
        g.label("element");
        break;
    }
    case 2:
    {
        var z;
        z["p"] = build(a);
        z["q"] = "other";
        z["a"] = 3;
        var e = z["p"];
        inplace(e);
        check(z["p"], "map value in place");
        EXPECT(z.at("q") == "other" && z.at("a") == 3, "rest of the map");
        g.label("map value");
        break;
    }
    }
    if (ta != TYPE_CHAR)
    {
        x = build(a);
        r = -x;
        Val m1 = World::castTo(mInt(-1), ta);
        want = arithOf(2, a, m1);
        check(r, "negative");
    }
    g.nontrivial(ta != tb);
}

PROPERTY(C10, wide, 100000,
         "integers and reals over their whole range where C++ defines the "
         "result; non-trivial if over 2^32")
{
    int t = g.pick({TYPE_LONG, TYPE_INT, TYPE_DOUBLE});
    int op = g.below(4);
    var x, y, r;
    if (t == TYPE_DOUBLE)
    {
        double a = (g.below(2000001) - 1000000) * std::pow(10., g.range(-40, 40));
        double b = (g.below(2000001) - 1000000) * std::pow(10., g.range(-40, 40));
        g.trace << a << " " << op << " " << b;
        x = a;
        y = b;
        r = op == 0 ? x + y : op == 1 ? x - y : op == 2 ? x * y : x / y;
        double w = arith(op, a, b), z = r.get<double>();
        EXPECT(w == z || (w != w && z != z), z << " expected " << w);
        g.nontrivial();
        return;
    }
    // The right operand can be of another type so long as it fits
    int u = g.pick({TYPE_LONG, TYPE_INT, TYPE_CHAR, TYPE_LONG});
    auto any = [&](int type) {
        int64_t lim = type == TYPE_LONG ? INT64_MAX
            : type == TYPE_INT ? INT32_MAX : INT8_MAX;
        return g.range64(-lim, lim) >> g.below(type == TYPE_LONG ? 63 : 31);
    };
    int64_t a = any(t), b = any(u), w;
    if (t == TYPE_INT && (b > INT32_MAX || b < INT32_MIN))
        return;
    bool bad = op == 0 ? __builtin_add_overflow(a, b, &w)
        : op == 1 ? __builtin_sub_overflow(a, b, &w)
        : op == 2 ? __builtin_mul_overflow(a, b, &w)
        : b == 0;
    if (bad)
        return;
    if (op == 3)
        w = a / b;
    if (t == TYPE_INT && (w > INT32_MAX || w < INT32_MIN))
        return;
    auto set = [](var& v, int type, int64_t i) {
        switch (type)
        {
        case TYPE_LONG: v = (long)i; break;
        case TYPE_INT: v = (int)i; break;
        default: v = (char)i;
        }
    };
    set(x, t, a);
    set(y, u, b);
    g.trace << typeStr(t) << " " << a << " " << op << " " << typeStr(u) << " "
            << b;
    if (g.flip())
        r = op == 0 ? x + y : op == 1 ? x - y : op == 2 ? x * y : x / y;
    else
    {
        g.trace << " in place";
        r = x;
        switch (op)
        {
        case 0: r += y; break;
        case 1: r -= y; break;
        case 2: r *= y; break;
        default: r /= y;
        }
        x = r;
    }
    EXPECT_EQ((int)r.type(), t, "type");
    EXPECT_EQ(t == TYPE_LONG ? r.get<long>() : (long)r.get<int>(), (long)w,
              "result");
    g.nontrivial(w > UINT32_MAX || w < -(int64_t)UINT32_MAX);
}

// --- C11 Indices and ranges

PROPERTY(C11, index, 200000,
         "chains of up to 20 operations on an index against a 64 bit integer "
         "whose sign is its truth; non-trivial if it becomes negative")
{
    int64_t m = g.rare(3) ? g.range64(-(1ll << 60), 1ll << 60) : g.range(-3, 3);
    ind i = (intptr_t)m;
    g.trace << m << " ";
    int n = 1 + g.sized(20);
    for (int k=0; k<n; k++)
    {
        int op = g.below(9);
        int64_t y = g.range(-5, 5);
        g.trace << op << " ";
        switch (op)
        {
        case 0:
            EXPECT_EQ((intptr_t)(i++), m, "i++");
            ++m;
            break;
        case 1:
            EXPECT_EQ((intptr_t)(i--), m, "i--");
            --m;
            break;
        case 2:
            ++m;
            EXPECT_EQ((intptr_t)(++i), m, "++i");
            break;
        case 3:
            --m;
            EXPECT_EQ((intptr_t)(--i), m, "--i");
            break;
        case 4:
        {
            ind j = ~i;
            EXPECT_EQ((intptr_t)j, -(m+1), "~i");
            EXPECT_EQ((intptr_t)~j, m, "~~i");
            EXPECT((bool)j != (bool)i, "~ changes truth");
            i = j;
            m = -(m+1);
            break;
        }
        case 5: i = i + y; m = m + y; break;
        case 6: i = i - y; m = m - y; break;
        case 7: EXPECT_EQ(i < y, m < y, "<"); break;
        case 8: EXPECT_EQ(i == y, m == y, "=="); break;
        }
        EXPECT_EQ((intptr_t)i, m, "value");
        EXPECT_EQ((bool)i, m >= 0, "truth");
        EXPECT_EQ(!i, m < 0, "not");
        if (m < 0)
            g.nontrivial();
    }
    ind d;
    EXPECT((bool)d && (intptr_t)d == 0, "default");
}

PROPERTY(C11, ranges, 200000,
         "range() and irange() with one, two or three int, long, float or "
         "double arguments against the arithmetic progression, its type and "
         "density; non-trivial if more than 2 elements")
{
    int t = g.pick({TYPE_INT, TYPE_LONG, TYPE_DOUBLE, TYPE_FLOAT});
    bool real = t == TYPE_DOUBLE || t == TYPE_FLOAT;
    // Quarters are exact
    int q = real && g.flip() ? 4 : 1;
    int lo = g.range(-20, 20), hi = lo + g.range(-5, 60);
    int step = 1 + g.below(6);
    bool incl = g.flip();
    int args = 1 + g.below(3);
    // Further from zero than an int or a float can tell
    int64_t far = args > 1 && (t == TYPE_LONG || t == TYPE_DOUBLE) && g.rare(4)
        ? g.range64(-(1ll << 45), 1ll << 45) : 0;
    auto mk = [&](int x, int64_t far = 0) {
        double d = (double)x / q + far;
        return t == TYPE_INT ? mInt(x / q) : t == TYPE_LONG ? mLong(x / q + far)
            : t == TYPE_FLOAT ? mFloat((float)d) : mDouble(d);
    };
    if (args < 3)
        step = q;
    if (args < 2)
        lo = incl ? q : 0;
    g.trace << (incl ? "range(" : "irange(") << lo << ", " << hi << ", "
            << step << ")/" << q << " + " << far << " " << args << " args "
            << typeStr(t);
    // The arguments can be (references to) elements of an array
    var array;
    Val am = mArr(t);
    bool elements = g.rare(3);
    if (elements)
    {
        g.trace << " elements";
        g.label("elements");
        am.p->s->e = {mk(hi, far), mk(step), mk(lo, far), mk(7)};
        array = build(am);
    }
    var h = elements ? array[0] : build(mk(hi, far));
    var s = elements ? array[1] : build(mk(step));
    var l = elements ? array[2] : build(mk(lo, far));
    var r = args == 1 ? (incl ? libube::range(h) : libube::irange(h))
        : args == 2 ? (incl ? libube::range(l, h) : libube::irange(l, h))
        : incl ? libube::range(l, h, s) : libube::irange(l, h, s);
    std::vector<Val> e;
    for (int x=lo; incl ? x <= hi : x < hi; x += step)
        e.push_back(mk(x, far));
    EXPECT_EQ(r.size(), (int)e.size(), "size");
    if (e.empty())
        EXPECT(!r.defined(), "empty range");
    else
        EXPECT_EQ((int)r.atype(), t, "type");
    for (size_t i=0; i<e.size(); i++)
    {
        std::string s = differs(r.at(i), e[i]);
        EXPECT(s.empty(), "element " << i << " " << s);
    }
    std::string d = differs(l, mk(lo, far));
    EXPECT(args < 2 || d.empty(), "low argument " << d);
    d = differs(h, mk(hi, far));
    EXPECT(d.empty(), "high argument " << d);
    if (array.defined())
    {
        d = differs(array, am);
        EXPECT(d.empty(), "array the arguments are from " << d);
    }
    g.nontrivial(e.size() > 2);
}

// --- C41 Construction

static const int kScalar[] = {TYPE_CHAR, TYPE_INT, TYPE_LONG, TYPE_FLOAT,
    TYPE_DOUBLE, TYPE_CFLOAT, TYPE_CDOUBLE};

static const char* nameOf(int t)
{
    switch (t)
    {
    case TYPE_ARRAY: return "array";
    case TYPE_CHAR: return "char";
    case TYPE_INT: return "int";
    case TYPE_LONG: return "long";
    case TYPE_FLOAT: return "float";
    case TYPE_DOUBLE: return "double";
    case TYPE_CFLOAT: return "cfloat";
    case TYPE_CDOUBLE: return "cdouble";
    case TYPE_VAR: return "var";
    case TYPE_PAIR: return "pair";
    }
    return "?";
}

// Everything that can be asked of a variable about what it is
static void expectIs(const var& v, const Val& m, const char* what)
{
    std::string s = differs(v, m);
    EXPECT(s.empty(), what << ": " << s);
    bool arr = m.isArr();
    int type = m.isNil() || arr ? TYPE_ARRAY : (int)m.t;
    EXPECT_EQ((int)v.type(), type, what);
    EXPECT_EQ(v.defined(), !m.isNil(), what);
    EXPECT_EQ((bool)v, !m.isNil(), what);
    EXPECT_EQ(!v, m.isNil(), what);
    EXPECT_EQ(std::string(v.typeStr().str()), std::string(nameOf(type)), what);
    if (m.isNil())
        return;
    int at = m.isArr() ? (int)m.p->type() : (int)m.t;
    EXPECT_EQ((int)v.atype(), at, what);
    EXPECT_EQ(v.atype<char>(), at == TYPE_CHAR, what);
    EXPECT_EQ(v.atype<int>(), at == TYPE_INT, what);
    EXPECT_EQ(v.atype<long>(), at == TYPE_LONG, what);
    EXPECT_EQ(v.atype<float>(), at == TYPE_FLOAT, what);
    EXPECT_EQ(v.atype<double>(), at == TYPE_DOUBLE, what);
    EXPECT_EQ(v.atype<cfloat>(), at == TYPE_CFLOAT, what);
    EXPECT_EQ(v.atype<cdouble>(), at == TYPE_CDOUBLE, what);
    EXPECT_EQ(v.atype<var>(), at == TYPE_VAR, what);
    EXPECT_EQ(std::string(v.atypeStr().str()),
              arr ? std::string("array[") + nameOf(at) + "]"
              : std::string(nameOf(at)), what);
    EXPECT_EQ(v.size(), m.isArr() ? m.p->size() : 1, what);
    EXPECT_EQ(!v.heap(), !arr, what);
    EXPECT_EQ(v.view(), false, what);
    EXPECT_EQ(v.dim(), 1, what);
}

PROPERTY(C41, construct, 30000,
         "scalars of each type, C strings, counted strings with any bytes, "
         "arrays of strings counted and not, arrays of integers, repeated "
         "values and lists of values, each asked for everything that can be "
         "asked; constructed with nothing, copied, moved and as an element; "
         "non-trivial if an array of 2 or more")
{
    Val m;
    var v;
    int n = g.wide(12, 3000, 60);
    switch (g.below(10))
    {
    case 0:
    {
        m = genScalar(g, kScalar[g.below(7)]);
        v = build(m);
        if (m.t == TYPE_CDOUBLE)
        {
            // These are arrays
            Val x = m;
            m = mArr(TYPE_CDOUBLE);
            m.p->s->e.push_back(x);
        }
        g.trace << "scalar ";
        break;
    }
    case 1:
    {
        std::string s = genText(g, 40);
        s = s.c_str();
        m = mStr(s);
        v = var(s.c_str());
        EXPECT_EQ(std::string(v.str()), s, "str()");
        g.trace << "C string ";
        break;
    }
    case 2:
    {
        std::string s = genText(g, 40);
        int k = g.below((int)s.size()+1);
        m = mStr(s.substr(0, k));
        v = var(k, s.data());
        EXPECT_EQ(std::string(v.str()), std::string(s.substr(0, k).c_str()),
                  "str()");
        g.trace << "counted string ";
        break;
    }
    case 3:
    case 4:
    {
        std::vector<std::string> s;
        for (int i=0; i<n; i++)
            s.push_back(genText(g, 8).c_str());
        std::vector<const char*> p;
        for (auto& t : s)
            p.push_back(t.c_str());
        p.push_back(0);
        bool counted = g.flip();
        if (n)
        {
            m = mArr(TYPE_VAR);
            for (auto& t : s)
                m.p->s->e.push_back(mStr(t));
        }
        v = counted ? var(n, p.data()) : var(p.data());
        g.trace << "strings " << counted << " ";
        break;
    }
    case 5:
    {
        std::vector<int> d;
        m = mArr(TYPE_INT);
        for (int i=0; i<n; i++)
        {
            Val x = genScalar(g, TYPE_INT);
            m.p->s->e.push_back(x);
            d.push_back((int)x.i);
        }
        v = var(n, (const int*)d.data());
        // It is a copy
        for (auto& x : d)
            x = ~x;
        g.trace << "ints ";
        break;
    }
    case 6:
    {
        int t = kScalar[g.below(6)];
        Val x = genScalar(g, t);
        n++;
        m = mArr(t);
        for (int i=0; i<n; i++)
            m.p->s->e.push_back(x);
        v = var(n, build(x));
        v.array();
        g.trace << "repeated ";
        break;
    }
    case 7:
    case 8:
    {
        // A list holds what pushing each in turn does
        n = g.below(5);
        Val x[4];
        int t = g.below(3);
        for (int i=0; i<n; i++)
            x[i] = t == 0 ? genScalar(g, kScalar[g.below(6)])
                : t == 1 ? genScalar(g, TYPE_INT)
                : i == 0 ? mStr(genText(g, 5)) : genVal(g, 1, false);
        for (int i=1; i<n; i++)
            if (t == 0)
                // They take the type of the first
                x[i] = genScalar(g, x[0].t);
        var a[4];
        for (int i=0; i<n; i++)
            a[i] = build(x[i]);
        var w;
        for (int i=0; i<n; i++)
            w.push(a[i]);
        switch (n)
        {
        case 0: v = var(std::initializer_list<var>{}); break;
        case 1: v = std::initializer_list<var>{a[0]}; break;
        case 2: v = {a[0], a[1]}; break;
        case 3: v = {a[0], a[1], a[2]}; break;
        case 4: v = {a[0], a[1], a[2], a[3]}; break;
        }
        g.trace << "list ";
        for (int i=0; i<n; i++)
            g.trace << show(x[i]) << ", ";
        EXPECT_EQ((int)v.type(), (int)w.type(), "type of list");
        EXPECT(n == 0 || v.atype() == w.atype(), "type of list");
        EXPECT(v == w, "list and pushing");
        if (n < 2 || (t == 2 && !x[0].isArr()))
            return;
        // If the first is an array it is the first of an array of arrays
        int et = x[0].isArr() || x[0].isNil() ? (int)TYPE_VAR : (int)x[0].t;
        EXPECT_EQ(v.size(), n, "size of list");
        EXPECT_EQ((int)v.atype(), et, "element type of list");
        if (et == TYPE_VAR)
            for (int i=0; i<n; i++)
            {
                std::string s = differs(v.at(i), x[i]);
                EXPECT(s.empty(), "element of list: " << s);
                EXPECT(!x[i].isArr() || a[i].heap() == v[i].heap(),
                       "an array in a list is that array");
            }
        g.nontrivial();
        return;
    }
    case 9:
    {
        // No value at all
        v = g.flip() ? var(nil) : var();
        g.trace << "nil ";
        break;
    }
    }
    g.trace << show(m);
    g.nontrivial(m.isArr() && m.p->size() > 1);
    expectIs(v, m, "as made");
    var c = v.copy();
    expectIs(c, m, "copy");
    var d(v);
    expectIs(d, m, "another name");
    EXPECT(v.is(d) || !v.heap(), "another name is the same");
    var e(std::move(d));
    expectIs(e, m, "moved to");
    EXPECT(!d.defined(), "moved from");
    d = e;
    expectIs(d, m, "assigned to after the move");
    var f;
    f["key"] = v;
    expectIs(f["key"], m, "value in a map");
    f["key"] = 0;
    expectIs(v, m, "after the map had it");
    var h;
    h[1] = v;
    if (m.isArr() || m.isNil())
        expectIs(h[1], m, "element");
    var k;
    k = 1;
    k = v;
    expectIs(k, m, "assigned");
}

PROPERTY(C41, shaped, 15000,
         "tensors of 1 to 4 dimensions made with a list or a variable as "
         "shape, filled with a value of each type or of its default; "
         "non-trivial if 2 dimensions or more")
{
    int nd = 1 + g.below(4);
    int sh[4];
    int size = 1;
    for (int i=0; i<nd; i++)
        size *= sh[i] = 1 + g.wide(3, 40, 60);
    int t = kScalar[g.below(6)];
    Val x = genScalar(g, t);
    g.trace << nd << ":" << size << " of " << show(x);
    bool fill = g.flip();
    var v;
    var s;
    for (int i=0; i<nd; i++)
        s.push(sh[i]);
    s.array();
    var b = build(x);
    bool list = g.flip();
    if (fill)
        switch (nd)
        {
        case 1: v = var({sh[0]}, b); break;
        case 2: v = var({sh[0], sh[1]}, b); break;
        case 3: v = var({sh[0], sh[1], sh[2]}, b); break;
        case 4: v = var({sh[0], sh[1], sh[2], sh[3]}, b); break;
        }
    else if (list)
        switch (nd)
        {
        case 1: v = view({sh[0]}, b); break;
        case 2: v = view({sh[0], sh[1]}, b); break;
        case 3: v = view({sh[0], sh[1], sh[2]}, b); break;
        case 4: v = view({sh[0], sh[1], sh[2], sh[3]}, b); break;
        }
    else
        v = view(s, b);
    EXPECT_EQ(v.dim(), nd, "dim");
    EXPECT_EQ(v.size(), size, "size");
    EXPECT_EQ((int)v.atype(), t, "type");
    EXPECT(v.view(), "is a view");
    EXPECT_EQ(v.offset(), 0, "offset");
    int stride = 1;
    for (int i=nd-1; i>=0; i--)
    {
        EXPECT_EQ(v.shape(i), sh[i], "shape");
        EXPECT_EQ(v.stride(i), stride, "stride");
        EXPECT_EQ(v.shape(i-nd), sh[i], "shape from the end");
        stride *= sh[i];
    }
    if (nd > 1)
        EXPECT(v.shape() == s, "shape()");
    else
        EXPECT_EQ(v.shape(), var(sh[0]), "shape()");
    if (fill)
        for (int i=0; i<size; i++)
        {
            var e;
            e = v.at(i);
            EXPECT(sameScalar(e, x), "element " << i);
        }
    g.nontrivial(nd > 1);
    // An array is no value to repeat
    bool thrown = false;
    try { var(2, s); }
    catch (std::exception&) { thrown = true; }
    EXPECT(thrown, "repeating an array");
}

PROPERTY(C41, raw, 20000,
         "raw chars, integers and double complex numbers appended in several "
         "pieces to nothing or to an array; of another type they are refused; "
         "non-trivial if 2 pieces or more")
{
    int t = g.pick({TYPE_CHAR, TYPE_INT, TYPE_CDOUBLE});
    int n = g.sized(6);
    var v;
    Val m;
    for (int i=0; i<n; i++)
    {
        int k = (t == TYPE_CDOUBLE) + g.wide(6, 2000, 60);
        std::vector<Val> x;
        for (int j=0; j<k; j++)
            x.push_back(genScalar(g, t));
        if (!m.isArr())
            m = mArr(t);
        for (auto& y : x)
            m.p->s->e.push_back(y);
        std::vector<char> c;
        std::vector<int> d;
        std::vector<cdouble> z;
        for (auto& y : x)
        {
            c.push_back((char)y.i);
            d.push_back((int)y.i);
            z.push_back(cdouble(y.re, y.im));
        }
        var w = v;
        bool was = v.defined();
        var& r = t == TYPE_CHAR ? v.append(k, (const char*)c.data())
            : t == TYPE_INT ? v.append(k, (const int*)d.data())
            : v.append(k, (const cdouble*)z.data());
        EXPECT(&r == &v, "append() returns the variable");
        if (was)
            EXPECT(w.is(v), "the same array");
        EXPECT_EQ(v.size(), m.p->size(), "size");
        EXPECT_EQ((int)v.atype(), t, "type");
        for (int j=0; j<m.p->size(); j++)
            EXPECT(samePtr(v, m.p->at(j), j), "element " << j);
    }
    g.trace << typeStr(t) << " " << n << " " << (n ? show(m) : "");
    g.nontrivial(n > 1);
    if (n)
    {
        bool thrown = false;
        int one = 1;
        char ch = 'a';
        try
        {
            if (t == TYPE_INT)
                v.append(1, &ch);
            else
                v.append(1, &one);
        }
        catch (std::exception&) { thrown = true; }
        EXPECT(thrown, "appending another type");
        EXPECT_EQ(v.size(), m.p->size(), "size after refusal");
    }
    // The names of types
    for (int i=-3; i<14; i++)
    {
        bool thrown = false;
        std::string s;
        try { s = libube::typeStr(ind(i)); }
        catch (std::exception&) { thrown = true; }
        EXPECT_EQ(thrown, i < 0 || i > TYPE_PAIR, "unknown type");
        if (!thrown)
            EXPECT_EQ(s, std::string(nameOf(i)), "name of type");
    }
}

PROPERTY(C41, comma, 10000,
         "lists made with the comma operator from a scalar or string of each "
         "type; non-trivial if 3 or more")
{
    int t = kScalar[g.below(6)];
    int n = 1 + g.below(6);
    Val m = mArr(t);
    for (int i=0; i<n; i++)
        m.p->s->e.push_back(genScalar(g, t));
    var v = build(m.p->at(0));
    if (n > 1 || g.flip())
        v.array();
    for (int i=1; i<n; i++)
    {
        var& r = v;
        var u = (r , build(m.p->at(i)));
        EXPECT(u.is(v) || n == 1, "the comma operator returns the list");
    }
    g.trace << show(m);
    if (n > 1)
    {
        std::string s = differs(v, m);
        EXPECT(s.empty(), s);
    }
    var w = v;
    var u = (var(1), 2, 3, (int)n);
    EXPECT_EQ(u.size(), 4, "size");
    for (int i=0; i<4; i++)
        EXPECT_EQ(u.at(i).get<int>(), i < 3 ? i + 1 : n, "element");
    g.nontrivial(n > 2);
}
