/* Arithmetic, functions and arrangement of big arrays */
#include "scale.h"

using namespace scale;

// A matrix or vector on part of an array
template<class T> struct Part
{
    std::vector<T> all;
    int off, rows, cols;
    var v, w;
    Part(Fill& f, int r, int c, bool vec, int o)
        : all(some<T>(f, o + r*c + f.below(3))), off(o), rows(r), cols(c)
    {
        hold(vec);
    }
    void hold(bool vec)
    {
        // Assigning to a view would write to what it's a view of
        v.clear();
        w.clear();
        v = array(all);
        w = vec ? v.view({rows*cols}, off) : v.view({rows, cols}, off);
    }
    T& at(int i) { return all[off + i]; }
};

static int offset(pbt::Gen& g)
{
    return g.flip() ? 1 + g.below(3) : 1 + size(g, 8);
}

template<class T> static T combine(int op, T a, T b)
{
    return op == 0 ? a + b : op == 1 ? a - b : op == 2 ? a * b : a / b;
}

static var combined(int op, const var& a, const var& b)
{
    return op == 0 ? a + b : op == 1 ? a - b : op == 2 ? a * b : a / b;
}

static void store(int op, var& a, const var& b)
{
    if (op == 0)
        a += b;
    else if (op == 1)
        a -= b;
    else if (op == 2)
        a *= b;
    else
        a /= b;
}

template<class T> static bool near(T a, T b)
{
    return std::abs(a - b) <= 1e-5 * (1 + std::abs(b));
}

template<class T> static void arithmetic(pbt::Gen& g)
{
    bool exact = (T)0.5 == (T)0;
    int rows = size(g, 7), cols = size(g, 9);
    int op = g.below(exact ? 2 : 4), how = g.below(4), o = offset(g);
    // An array by an array is a product, there is no quotient, and of
    // integers it's refused
    if (exact || op > 1)
        how = 2;
    Fill f(g);
    g.trace << "op " << op << " how " << how;
    Part<T> a(f, rows, cols, false, o), b(f, how == 1 ? 1 : rows, cols,
                                          how == 1, offset(g));
    T x = (T)(2 + f.below(9));
    for (auto& y : b.all)
        if (y == (T)0)
            y = (T)1;
    b.hold(how == 1);
    // The second operand: the same shape, a row, a scalar, or itself
    if (how == 3)
        for (auto& y : a.all)
            if (y == (T)0)
                y = (T)1;
    a.hold(false);
    std::vector<T> e;
    for (int i=0; i<rows*cols; i++)
        e.push_back(combine<T>(op, a.at(i),
                               how == 0 ? b.at(i) : how == 1 ? b.at(i % cols)
                               : how == 2 ? x : a.at(i)));
    var y = how < 2 ? b.w : how == 2 ? var(x) : a.w;
    var r = combined(op, a.w, y);
    EXPECT_EQ(r.shape(0), rows, "rows");
    EXPECT_EQ(r.shape(1), cols, "columns");
    for (int i=0; i<rows*cols; i++)
    {
        T z = r.ptr<T>()[i];
        EXPECT(near(z, e[i]), "element " << i << " is " << z << " for "
               << e[i]);
    }
    same(a.v, a.all, "first operand");
    same(b.v, b.all, "second operand");
    store(op, a.w, y);
    for (int i=0; i<(int)a.all.size(); i++)
    {
        int k = i - a.off;
        T z = a.v.template ptr<T>()[i];
        T t = k < 0 || k >= rows*cols ? a.all[i] : e[k];
        EXPECT(near(z, t), "element " << k << " in place is " << z << " for "
               << t);
    }
    same(b.v, b.all, "second operand");
}

PROPERTY(C22, scale, 300,
         "matrices of up to 256 by 1024 on part of an array combined with "
         "another, a row, a scalar or themselves; non-trivial if more than "
         "300 rows or columns")
{
    switch (g.below(6))
    {
    case 0: arithmetic<int>(g); break;
    case 1: arithmetic<long>(g); break;
    case 2:
    case 3: arithmetic<float>(g); break;
    default: arithmetic<double>(g); break;
    }
}

template<class T> static T function(int op, T x)
{
    return op == 0 ? std::floor(x) : op == 1 ? std::abs(x)
        : op == 2 ? std::sqrt(x) : op == 3 ? std::sin(x)
        : op == 4 ? std::exp(x) : std::pow(x, (T)2);
}

template<class T> static void functions(pbt::Gen& g)
{
    int n = size(g, 14), op = g.below(6), o = offset(g);
    Fill f(g);
    g.trace << "op " << op;
    Part<T> a(f, 1, n, true, o), b(f, 1, n, true, offset(g));
    for (auto& x : a.all)
        x = op == 2 ? std::abs(x) : op == 4 ? x / 50 : x + (T)0.25;
    a.hold(true);
    std::vector<T> e = b.all, s = a.all;
    for (int i=0; i<n; i++)
    {
        T y = function(op, a.at(i));
        e[b.off + i] = y;
        s[a.off + i] = y;
    }
    auto call = [&](var& out) {
        switch (op)
        {
        case 0: lu::floor(a.w, out); break;
        case 1: lu::abs(a.w, out); break;
        case 2: lu::sqrt(a.w, out); break;
        case 3: lu::sin(a.w, out); break;
        case 4: lu::exp(a.w, out); break;
        default: lu::pow(a.w, var((T)2), out);
        }
    };
    auto alike = [](const var& v, const std::vector<T>& w, const char* what) {
        EXPECT_EQ((size_t)v.size(), w.size(), "size");
        for (size_t i=0; i<w.size(); i++)
        {
            T x = const_cast<var&>(v).template ptr<T>()[i];
            EXPECT(near(x, w[i]), what << ": element " << i << " is " << x
                   << " for " << w[i]);
        }
    };
    call(b.w);
    alike(b.v, e, "output");
    same(a.v, a.all, "operand");
    call(a.w);
    alike(a.v, s, "in place");
}

PROPERTY(C23, scale, 400,
         "floor, abs, sqrt, sin, exp and pow of up to 32768 elements, part of "
         "an array, to another or in place; non-trivial if more than 300")
{
    if (g.flip())
        functions<float>(g);
    else
        functions<double>(g);
}

// Integers, so that sums are exact
template<class T> static void product(pbt::Gen& g)
{
    int n = size(g, 6), k = size(g, 6), m = size(g, 6), o = offset(g);
    Fill f(g);
    Part<T> a(f, n, k, false, o), b(f, k, m, false, offset(g));
    var r = lu::dot(a.w, b.w);
    EXPECT_EQ(r.shape(0), n, "rows");
    EXPECT_EQ(r.shape(1), m, "columns");
    for (int i=0; i<n; i++)
        for (int j=0; j<m; j++)
        {
            T s = 0;
            for (int l=0; l<k; l++)
                s += a.at(i*k + l) * b.at(l*m + j);
            T z = r.ptr<T>()[i*m + j];
            EXPECT(z == s, "element " << i << ", " << j << " is " << z
                   << " for " << s);
        }
    same(a.v, a.all, "first");
    same(b.v, b.all, "second");
}

PROPERTY(C24, scale, 300,
         "products of matrices of up to 128 by 128; non-trivial if a "
         "dimension is more than 20")
{
    g.flip() ? product<float>(g) : product<double>(g);
    g.nontrivial();
}

namespace libube { const UnaryFunctor& transposeOther(); }

template<class T> static void transposed(pbt::Gen& g)
{
    bool other = g.flip();
    int r = size(g, 8), c = g.flip() ? r : size(g, 8), how = g.below(3);
    Fill f(g);
    g.trace << "how " << how;
    const lu::UnaryFunctor& t = other ? lu::transposeOther()
        : (const lu::UnaryFunctor&)lu::transpose;
    Part<T> a(f, r, c, false, offset(g)), b(f, c, r, false, offset(g));
    std::vector<T> e;
    for (int j=0; j<c; j++)
        for (int i=0; i<r; i++)
            e.push_back(a.at(i*c + j));
    Part<T>* p = &b;
    var out;
    if (how == 0)
        out = t(a.w);
    else if (how == 1)
        t(a.w, b.w);
    else
    {
        t(a.w, a.w);
        p = &a;
    }
    var& w = how == 0 ? out : p->w;
    EXPECT_EQ(w.shape(0), c, "rows");
    EXPECT_EQ(w.shape(1), r, "columns");
    for (int i=0; i<r*c; i++)
    {
        EXPECT(w.at(i).template get<T>() == e[i], "element " << i);
        if (how)
            p->at(i) = e[i];
    }
    same(a.v, a.all, "first");
    same(b.v, b.all, "second");
}

PROPERTY(C25, scale, 300,
         "matrices of up to 512 by 512, part of an array, transposed by both "
         "implementations, to a result, an output and in place; non-trivial "
         "if more than 300 rows or columns")
{
    g.flip() ? transposed<float>(g) : transposed<double>(g);
}

template<class T> static void joined(pbt::Gen& g)
{
    int n = g.flip() ? 1 + g.below(4) : size(g, 7), rows = size(g, 5);
    Fill f(g);
    std::vector<Part<T>> p;
    var all;
    int cols = 0, limit = 20000 / (n * rows) + 1;
    for (int i=0; i<n; i++)
    {
        int c = 2 + f.below(f.below(2) ? limit : 3);
        p.emplace_back(f, rows, c, false, f.below(5));
        all[i] = p.back().w;
        cols += c;
    }
    var r = lu::concatenate(all);
    EXPECT_EQ(r.shape(0), rows, "rows");
    EXPECT_EQ(r.shape(1), cols, "columns");
    int at = 0;
    for (int i=0; i<rows; i++)
        for (auto& x : p)
            for (int j=0; j<x.cols; j++, at++)
                EXPECT(r.ptr<T>()[at] == x.at(i*x.cols + j),
                       "element " << at);
    for (auto& x : p)
        same(x.v, x.all, "operand");
    // Exchange two
    Part<T> a(f, rows, cols, false, f.below(5)),
        b(f, rows, cols, false, f.below(5));
    lu::swap(a.w, b.w);
    for (int i=0; i<rows*cols; i++)
        std::swap(a.at(i), b.at(i));
    same(a.v, a.all, "swapped first");
    same(b.v, b.all, "swapped second");
}

PROPERTY(C28, scale, 150,
         "up to 256 matrices of up to 64 rows concatenated and big ones "
         "swapped; non-trivial if more than 30 matrices or rows")
{
    int k = g.below(4);
    k == 0 ? joined<float>(g) : k == 1 ? joined<double>(g)
        : k == 2 ? joined<cfloat>(g) : joined<cdouble>(g);
    g.nontrivial();
}
