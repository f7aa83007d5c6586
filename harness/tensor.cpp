/* Tensor functions: arithmetic, elementwise functions, reductions, products,
 * transposition, concatenation */
#include "tensor.h"

using namespace tensor;
namespace lu = libube;

#define FOR_TYPE(k, F, ...)                             \
    switch (k)                                          \
    {                                                   \
    case lu::TYPE_CHAR: F<char>(__VA_ARGS__); break;    \
    case lu::TYPE_INT: F<int>(__VA_ARGS__); break;      \
    case lu::TYPE_LONG: F<long>(__VA_ARGS__); break;    \
    case lu::TYPE_FLOAT: F<float>(__VA_ARGS__); break;  \
    case lu::TYPE_DOUBLE: F<double>(__VA_ARGS__); break;\
    case lu::TYPE_CFLOAT: F<cfloat>(__VA_ARGS__); break;\
    default: F<cdouble>(__VA_ARGS__); break;            \
    }

#define FOR_FLOAT(k, F, ...)                            \
    switch (k)                                          \
    {                                                   \
    case 0: F<double>(__VA_ARGS__); break;              \
    case 1: F<float>(__VA_ARGS__); break;               \
    case 2: F<cfloat>(__VA_ARGS__); break;              \
    default: F<cdouble>(__VA_ARGS__); break;            \
    }

static int numericType(pbt::Gen& g)
{
    static const int t[] = {
        lu::TYPE_DOUBLE, lu::TYPE_FLOAT, lu::TYPE_CFLOAT, lu::TYPE_CDOUBLE,
        lu::TYPE_INT, lu::TYPE_LONG, lu::TYPE_CHAR};
    return t[g.weighted({4, 3, 2, 3, 1, 1, 1})];
}

#define CHECK(t, what)                                          \
    do { std::string why_s = (t).wrong(0, 4*epsilon<T>());      \
        EXPECT(why_s.empty(), what << ": " << why_s); } while (0)

// --- C22 Arithmetic on arrays

static const char* OPS[] = {"+", "-", "*", "/"};

template<class T> T applied(int op, T a, T b)
{
    switch (op)
    {
    case 0: return (T)(a + b);
    case 1: return (T)(a - b);
    case 2: return (T)(a * b);
    default: return (T)(a / b);
    }
}

static var apply2(int op, const var& a, const var& b)
{
    switch (op)
    {
    case 0: return a + b;
    case 1: return a - b;
    case 2: return a * b;
    default: return a / b;
    }
}

static void apply2(int op, var& a, const var& b, bool)
{
    switch (op)
    {
    case 0: a += b; break;
    case 1: a -= b; break;
    case 2: a *= b; break;
    default: a /= b; break;
    }
}

static void apply2(int op, const var& a, const var& b, var& o)
{
    switch (op)
    {
    case 0: lu::add(a, b, o); break;
    case 1: lu::sub(a, b, o); break;
    case 2: lu::mul(a, b, o); break;
    default: lu::div(a, b, o); break;
    }
}

// What is there is supported; otherwise an exception is an acceptable answer
template<class T> bool supported(int op, bool scalar)
{
    if (scalar)
        return op != 2 || Traits<T>::real;
    return op == 0 ? Traits<T>::real || Traits<T>::cplx
        : op == 3 ? false : (bool)Traits<T>::real;
}

template<class T> void arithmetic(pbt::Gen& g)
{
    int op = g.below(4);
    Shape s = genShape(g, 1 + g.weighted({5, 4, 2, 1}));
    Tensor<T> a = gen<T>(g, s);
    if (Traits<T>::code == lu::TYPE_CDOUBLE && a.size() == 1)
        return; // It's a scalar; see C10
    bool scalar = g.flip();
    var b;
    Tensor<T> tb;
    std::vector<T> w = a.data;
    int n = a.size();
    g.trace << a << " " << OPS[op] << " ";
    bool self = false;
    if (scalar)
    {
        // Any type that can be cast, alone or in an array of one
        int k = g.range(-9, 9);
        if (op == 3 && k == 0)
            k = 3;
        if (Traits<T>::code == lu::TYPE_CHAR && g.flip())
            k = std::abs(k);
        T x = (T)k;
        switch (g.below(5))
        {
        case 0: b = k; break;
        case 1: b = (long)k; break;
        case 2: b = (float)k; break;
        case 3: b = (double)k; break;
        case 4:
            if (Traits<T>::cplx || Traits<T>::real)
            {
                x = Make<T>::one(g);
                if (op == 3 && x == (T)0)
                    x = (T)2;
            }
            b = x;
            break;
        }
        if (g.rare(3))
            b.array();
        g.trace << lu::typeStr(b.atype()) << " " << (cdouble)x;
        for (auto& y : w)
            y = applied(op, y, x);
    }
    else
    {
        if (g.rare(8))
        {
            self = true;
            b = a.v;
            g.trace << "itself";
            if (op == 3)
                return;
            for (auto& y : w)
                y = applied(op, y, y);
        }
        else
        {
            int k = 1 + g.below((int)s.size());
            Shape t(s.end() - k, s.end());
            tb = gen<T>(g, t);
            if (op == 3)
                for (int i=0; i<tb.size(); i++)
                    if (tb.data[i] == (T)0)
                        return;
            b = tb.v;
            g.trace << tb;
            for (int i=0; i<n; i++)
                w[i] = applied(op, w[i], tb.data[i % tb.size()]);
            g.label(k < (int)s.size(), "broadcast");
        }
        if (b.dim() == 1 && b.size() == 1)
            scalar = true;
    }
    bool must = supported<T>(op, scalar);
    var alias = a.v;
    switch (g.below(3))
    {
    case 0:
    {
        g.trace << " functional";
        var r;
        bool threw = throws([&] { r = apply2(op, a.v, b); });
        EXPECT(!threw || !must, "refused");
        CHECK(a, "left operand");
        if (threw)
            break;
        Tensor<T> want;
        want.shape = s;
        want.data = w;
        want.v = r;
        CHECK(want, "result");
        // The result is something else
        r.at(0);
        *r.ptr<T>() = (T)77;
        CHECK(a, "left operand after change of result");
        g.nontrivial(s.size() > 1);
        break;
    }
    case 1:
    {
        g.trace << " in place";
        bool threw = throws([&] { apply2(op, a.v, b, true); });
        EXPECT(!threw || !must, "refused");
        if (!threw)
        {
            a.set(w);
            g.nontrivial(s.size() > 1);
        }
        CHECK(a, "result in place");
        EXPECT(alias.is(a.v), "no longer the same array");
        a.v = alias;
        CHECK(a, "result through another name");
        break;
    }
    case 2:
    {
        g.trace << " to output";
        Tensor<T> o = gen<T>(g, s);
        bool threw = throws([&] { apply2(op, a.v, b, o.v); });
        EXPECT(!threw || !must, "refused");
        CHECK(a, "left operand");
        if (threw)
            break;
        o.set(w);
        CHECK(o, "output");
        g.nontrivial(s.size() > 1);
        break;
    }
    }
    if (!scalar && !self)
        CHECK(tb, "right operand");
    g.label(scalar ? "scalar" : "array");
    g.label(!a.all.empty(), "window");
}

PROPERTY(C22, arithmetic, 120000,
         "arrays, matrices and tensors to 4 dimensions of the 7 types, whole "
         "or as windows on a larger array, combined by + - * / with a scalar "
         "of any type, an array of matching trailing dimensions, or "
         "themselves; functional, in place, and to a given output; "
         "non-trivial if of 2 or more dimensions and not refused")
{
    FOR_TYPE(numericType(g), arithmetic, g);
}

template<class T> void mismatch(pbt::Gen& g)
{
    int op = g.below(3);
    Shape s = genShape(g, 1 + g.below(3));
    Shape t;
    int k = 1 + g.below((int)s.size());
    t = Shape(s.end() - k, s.end());
    bool type = false;
    switch (g.below(3))
    {
    case 0:
    {
        // A dimension is wrong
        int d = g.below(k);
        int x = t[d];
        t[d] = g.flip() ? x + 1 + g.below(3) : 1 + g.below(x);
        if (t[d] == x)
            return;
        break;
    }
    case 1:
        // Too many dimensions
        while (t.size() <= s.size())
            t.insert(t.begin(), 1 + g.below(3));
        break;
    default:
        type = true;
    }
    if (t.size() == 1 && t[0] == 1)
        return; // Like a scalar
    Tensor<T> a = gen<T>(g, s);
    if (a.size() == 1)
        return;
    g.trace << a << " " << OPS[op] << " ";
    var b;
    Tensor<T> tb;
    if (type)
    {
        if (Traits<T>::code == lu::TYPE_INT)
            b = gen<double>(g, t).v;
        else
            b = gen<int>(g, t).v;
        g.trace << lu::typeStr(b.atype()) << str(t);
    }
    else
    {
        tb = gen<T>(g, t);
        b = tb.v;
        g.trace << tb;
    }
    bool threw;
    switch (g.below(3))
    {
    case 0:
        threw = throws([&] { var r = apply2(op, a.v, b); });
        break;
    case 1:
        threw = throws([&] { apply2(op, a.v, b, true); });
        break;
    default:
    {
        Tensor<T> o = gen<T>(g, s);
        threw = throws([&] { apply2(op, a.v, b, o.v); });
        CHECK(o, "output");
    }
    }
    EXPECT(threw, "accepted");
    CHECK(a, "left operand");
    if (!type)
        CHECK(tb, "right operand");
    g.nontrivial(s.size() > 1 || t.size() > 1);
}

PROPERTY(C22, mismatch, 40000,
         "pairs of arrays of which a trailing dimension, the number of "
         "dimensions or the type does not match are refused and left alone; "
         "non-trivial if one has 2 or more dimensions")
{
    FOR_TYPE(numericType(g), mismatch, g);
}

/** Windows on the one array, and what it holds */
template<class T> struct Base
{
    std::vector<T> all;
    var back;
    std::string trace;

    /** A window, or the array itself, or one of its elements */
    var at(pbt::Gen& g, const Shape& s, int off)
    {
        int n = product(s);
        if (s.size() == 1 && n == 1 && g.flip())
        {
            // (A copy would be the same reference)
            g.trace << "element " << off;
            return g.flip() ? back[off] : back.at(off);
        }
        if (s.size() == 1 && n == (int)all.size() && g.flip())
        {
            g.trace << "array";
            return back;
        }
        g.trace << str(s) << "@" << off;
        return back.view(shapeVar(s), off);
    }

    std::string wrong() const
    {
        Shape b = {(int)all.size()};
        return Tensor<T>::wrongly(back, b, all, 1, 8*epsilon<T>());
    }
};

template<class T> Base<T> genBase(pbt::Gen& g, int n, bool zero = true)
{
    Base<T> b;
    b.all = fill<T>(g, n);
    for (auto& x : b.all)
        if (!zero && x == (T)0)
            x = (T)2;
    b.back = array<T>(n);
    std::copy(b.all.begin(), b.all.end(), b.back.template ptr<T>());
    g.trace << lu::typeStr((int)Traits<T>::code) << "[";
    for (auto& x : b.all)
        g.trace << (cdouble)x << " ";
    g.trace << "] ";
    return b;
}

template<class T> void overlap(pbt::Gen& g)
{
    int op = g.below(4);
    Shape s;
    s = genShape(g, 1 + g.weighted({5, 4, 2}), 60);
    int n = product(s);
    if (n == 1)
    {
        s = Shape{2};
        n = 2;
    }
    int total = n + g.below(n + 3);
    Base<T> base = genBase<T>(g, total, op != 3);
    int offA = g.below(total - n + 1);
    int offO = g.flip() ? offA : g.below(total - n + 1);
    // An element, the trailing dimensions, or a window of the same shape
    Shape t;
    switch (g.below(3))
    {
    case 0: t = Shape{1}; break;
    case 1: t = Shape(s.end() - 1 - g.below((int)s.size()), s.end()); break;
    default: t = s; break;
    }
    int m = product(t);
    bool scalar = t.size() == 1 && m == 1;
    int offB = g.flip() ? g.below(total - m + 1)
        : std::min(total - m, offA + g.below(std::max(1, n - m + 1)));
    var a = base.at(g, s, offA);
    g.trace << " " << OPS[op] << " ";
    bool inside = offB + m > offO && offB < offO + n;
    std::vector<T> w = base.all;
    for (int i=0; i<n; i++)
        w[offO + i] = applied(op, base.all[offA + i], base.all[offB + i % m]);
    bool threw;
    if (offA == offO && g.flip())
    {
        var b = base.at(g, t, offB);
        g.trace << " in place";
        threw = throws([&] { apply2(op, a, b, true); });
    }
    else
    {
        var b = base.at(g, t, offB);
        g.trace << " to ";
        var o = base.at(g, s, offO);
        threw = throws([&] { apply2(op, a, b, o); });
    }
    EXPECT(!threw || !supported<T>(op, scalar), "refused");
    if (!threw)
        base.all = w;
    std::string why = base.wrong();
    EXPECT(why.empty(), (threw ? "refused, but " : "") << why);
    g.nontrivial(!threw && (inside || offA != offO));
    g.label(scalar ? "element" : t.size() < s.size() ? "row" : "window");
}

PROPERTY(C22, overlap, 60000,
         "operands and output that are windows on, rows of, and elements of "
         "the same array, at various distances: the result is that of the "
         "operands as they were; non-trivial if an operand is partly written")
{
    FOR_TYPE(numericType(g), overlap, g);
}

// Arrays and maps of values of several types and arrays of them
namespace
{
    struct Node
    {
        int type;           ///< A numeric type, TYPE_VAR or TYPE_PAIR
        cdouble x;
        std::vector<Node> e;
    };

    Node genNode(pbt::Gen& g, int depth, bool real = false)
    {
        Node n;
        int k = depth > 0 ? g.weighted({3, 1, 2}) : 2;
        if (k == 2)
        {
            static const int t[] = {
                lu::TYPE_INT, lu::TYPE_DOUBLE, lu::TYPE_FLOAT, lu::TYPE_LONG,
                lu::TYPE_CFLOAT};
            n.type = real ? t[1 + g.below(2)] : t[g.below(5)];
            double x = n.type == lu::TYPE_INT || n.type == lu::TYPE_LONG
                ? g.range(-20, 20) : number(g);
            n.x = cdouble(x, n.type == lu::TYPE_CFLOAT ? number(g) : 0);
            return n;
        }
        n.type = k == 1 ? lu::TYPE_PAIR : lu::TYPE_VAR;
        int m = 1 + g.below(4);
        for (int i=0; i<m; i++)
            n.e.push_back(genNode(g, depth - 1, real));
        return n;
    }

    var buildNode(const Node& n)
    {
        var v;
        switch (n.type)
        {
        case lu::TYPE_INT: return var((int)n.x.real());
        case lu::TYPE_LONG: return var((long)n.x.real());
        case lu::TYPE_FLOAT: return var((float)n.x.real());
        case lu::TYPE_DOUBLE: return var(n.x.real());
        case lu::TYPE_CFLOAT: return var((cfloat)n.x);
        case lu::TYPE_VAR:
            for (size_t i=0; i<n.e.size(); i++)
                v[(int)i] = buildNode(n.e[i]);
            break;
        default:
            for (size_t i=0; i<n.e.size(); i++)
                v[std::string(1, (char)('a' + i)).c_str()] = buildNode(n.e[i]);
        }
        return v;
    }

    void show(std::ostream& o, const Node& n)
    {
        if (n.e.empty())
        {
            o << lu::typeStr(n.type) << n.x;
            return;
        }
        o << (n.type == lu::TYPE_PAIR ? "{" : "[");
        for (auto& x : n.e)
            show(o, x), o << " ";
        o << (n.type == lu::TYPE_PAIR ? "}" : "]");
    }

    std::string differs(const var& v, const Node& n, double tol)
    {
        std::ostringstream o;
        if (!v.defined())
            return "undefined";
        if (n.e.empty())
        {
            if (v.type() != n.type)
            {
                o << "type " << lu::typeStr(v.type()) << " for "
                  << lu::typeStr(n.type);
                return o.str();
            }
            cdouble x;
            switch (n.type)
            {
            case lu::TYPE_INT: x = v.get<int>(); break;
            case lu::TYPE_LONG: x = v.get<long>(); break;
            case lu::TYPE_FLOAT: x = v.get<float>(); break;
            case lu::TYPE_DOUBLE: x = v.get<double>(); break;
            default: x = (cdouble)v.get<cfloat>();
            }
            if (!near(x, n.x, std::abs(n.x), tol)
                && !(bothNaN(x.real(), n.x.real())))
            {
                o << "value " << x << " for " << n.x;
                return o.str();
            }
            return "";
        }
        if (v.size() != (int)n.e.size())
        {
            o << "size " << v.size() << " for " << n.e.size();
            return o.str();
        }
        if (n.type == lu::TYPE_PAIR && v.atype() != lu::TYPE_PAIR)
            return "not a map";
        for (int i=0; i<v.size(); i++)
        {
            if (n.type == lu::TYPE_PAIR
                && !(v.key(i) == std::string(1, (char)('a' + i)).c_str()))
                return "key";
            std::string s = differs(v.at(i), n.e[i], tol);
            if (!s.empty())
            {
                o << "in element " << i << " " << s;
                return o.str();
            }
        }
        return "";
    }

    template<class F> void each(Node& n, F f)
    {
        if (n.e.empty())
            f(n);
        for (auto& x : n.e)
            each(x, f);
    }
}

PROPERTY(C22, collections, 40000,
         "arrays and maps of numbers of several types, and of arrays and maps "
         "of those, with + - / and a scalar, in place or not, act on each "
         "number in its own type; non-trivial if nested")
{
    Node n = genNode(g, 3);
    if (n.e.empty())
        return;
    int op = g.pick({0, 1, 3});
    int k = g.range(-5, 5);
    if (op == 3 && k == 0)
        k = 2;
    show(g.trace, n);
    g.trace << OPS[op] << k;
    Node w = n;
    each(w, [&](Node& x) {
        switch (x.type)
        {
        case lu::TYPE_INT:
            x.x = applied(op, (int)x.x.real(), k);
            break;
        case lu::TYPE_LONG:
            x.x = (double)applied(op, (long)x.x.real(), (long)k);
            break;
        default:
            x.x = applied(op, x.x, (cdouble)k);
        }
    });
    bool nested = false;
    for (auto& x : n.e)
        nested = nested || !x.e.empty();
    g.nontrivial(nested);
    var v = buildNode(n);
    var y = g.flip() ? var(k) : var((double)k);
    std::string s;
    if (g.flip())
    {
        g.trace << " functional";
        var r = apply2(op, v, y);
        s = differs(r, w, 1e-6);
        EXPECT(s.empty(), "result: " << s);
        s = differs(v, n, 0);
        EXPECT(s.empty(), "operand: " << s);
    }
    else
    {
        g.trace << " in place";
        apply2(op, v, y, true);
        s = differs(v, w, 1e-6);
        EXPECT(s.empty(), "result in place: " << s);
    }
}

// --- C23 Elementwise functions

static const char* FUN[] = {
    "sin", "cos", "tan", "atan", "floor", "sqrt", "log", "exp", "real", "imag",
    "abs", "arg", "norm", "pow"};
enum { SIN, COS, TAN, ATAN, FLOOR, SQRT, LOG, EXP, REAL, IMAG, ABS, ARG, NORM,
       POW };

template<class T> cdouble function(int f, T x, T y)
{
    switch (f)
    {
    case SIN: return std::sin(x);
    case COS: return std::cos(x);
    case TAN: return std::tan(x);
    case ATAN: return std::atan(x);
    case SQRT: return std::sqrt(x);
    case LOG: return std::log(x);
    case EXP: return std::exp(x);
    case REAL: return std::real(x);
    case IMAG: return std::imag(x);
    case ABS: return std::abs(x);
    case ARG: return std::arg(x);
    case NORM: return std::norm(x);
    case POW: return std::pow(x, y);
    default: return 0;
    }
}

template<> cdouble function(int f, float x, float y);
template<class T> struct Fl { static cdouble f(T x) { return 0; } };
template<> struct Fl<float> { static cdouble f(float x) { return std::floor(x);
    } };
template<> struct Fl<double> { static cdouble f(double x) {
        return std::floor(x); } };
template<> cdouble function(int f, float x, float y)
{
    // Real and so on would promote to double
    switch (f)
    {
    case SIN: return std::sin(x);
    case COS: return std::cos(x);
    case TAN: return std::tan(x);
    case ATAN: return std::atan(x);
    case SQRT: return std::sqrt(x);
    case LOG: return std::log(x);
    case EXP: return std::exp(x);
    case REAL: return x;
    case IMAG: return 0;
    case ABS: return std::abs(x);
    case ARG: return std::arg(x);
    case NORM: return x*x;
    default: return std::pow(x, y);
    }
}

static var call(int f, const var& v, const var& y)
{
    switch (f)
    {
    case SIN: return lu::sin(v);
    case COS: return lu::cos(v);
    case TAN: return lu::tan(v);
    case ATAN: return lu::atan(v);
    case FLOOR: return lu::floor(v);
    case SQRT: return lu::sqrt(v);
    case LOG: return lu::log(v);
    case EXP: return lu::exp(v);
    case REAL: return lu::real(v);
    case IMAG: return lu::imag(v);
    case ABS: return lu::abs(v);
    case ARG: return lu::arg(v);
    case NORM: return lu::norm(v);
    default: return lu::pow(v, y);
    }
}

static var callOut(int f, const var& v, const var& y, var& o)
{
    switch (f)
    {
    case SIN: return lu::sin(v, o);
    case COS: return lu::cos(v, o);
    case TAN: return lu::tan(v, o);
    case ATAN: return lu::atan(v, o);
    case FLOOR: return lu::floor(v, o);
    case SQRT: return lu::sqrt(v, o);
    case LOG: return lu::log(v, o);
    case EXP: return lu::exp(v, o);
    case REAL: return lu::real(v, o);
    case IMAG: return lu::imag(v, o);
    case ABS: return lu::abs(v, o);
    case ARG: return lu::arg(v, o);
    case NORM: return lu::norm(v, o);
    default: return lu::pow(v, y, o);
    }
}

static var method(int f, var& v, const var& y)
{
    switch (f)
    {
    case SIN: return v.sin();
    case COS: return v.cos();
    case FLOOR: return v.floor();
    case SQRT: return v.sqrt();
    case LOG: return v.log();
    case EXP: return v.exp();
    case REAL: return v.real();
    case IMAG: return v.imag();
    case ABS: return v.abs();
    case POW: return v.pow(y);
    default: return callOut(f, v, y, v);
    }
}

static bool alwaysReal(int f)
{
    return f >= REAL && f <= NORM;
}

template<class T> cdouble functionOf(int f, T x, T y)
{
    return f == FLOOR ? Fl<T>::f(x) : function<T>(f, x, y);
}

template<class T> bool same(T got, cdouble want)
{
    cdouble x = (cdouble)got;
    double eps = 8 * epsilon<T>();
    auto part = [&](double a, double b) {
        return a == b || bothNaN(a, b)
            || std::abs(a - b) <= eps * std::abs(want) + 1e-300;
    };
    return part(x.real(), want.real()) && part(x.imag(), want.imag());
}

template<class T> T argument(pbt::Gen& g, int f);
template<class T> T argumentReal(pbt::Gen& g, int f)
{
    T x = g.flip() ? (T)(number(g) / (g.flip() ? 1 : 16))
        : (T)(g.range(-100000, 100000) / 8192.0);
    if (f == EXP || f == SIN || f == COS || f == TAN || f == POW)
        while (std::abs(x) > 30)
            x /= 10;
    return x;
}
template<> float argument(pbt::Gen& g, int f)
{
    return argumentReal<float>(g, f);
}
template<> double argument(pbt::Gen& g, int f)
{
    return argumentReal<double>(g, f);
}
template<> cfloat argument(pbt::Gen& g, int f)
{
    float re = argumentReal<float>(g, f), im = argumentReal<float>(g, f);
    return cfloat(re, g.rare(5) ? 0 : im);
}
template<> cdouble argument(pbt::Gen& g, int f)
{
    double re = argumentReal<double>(g, f), im = argumentReal<double>(g, f);
    return cdouble(re, g.rare(5) ? 0 : im);
}

template<class R, class T>
void checkElements(const var& r, const Shape& s, const std::vector<cdouble>& w,
                   const char* what)
{
    EXPECT(r.defined(), what << " undefined");
    EXPECT_EQ((int)(long)r.atype(), (int)Traits<R>::code, "type");
    EXPECT_EQ(r.size(), (int)w.size(), "size");
    EXPECT_EQ(r.dim(), (int)s.size(), "dimensions");
    for (size_t i=0; i<s.size(); i++)
        EXPECT_EQ(r.shape((int)i), s[i], "shape");
    for (size_t i=0; i<w.size(); i++)
    {
        R x = r.at((int)i).template get<R>();
        EXPECT(same<R>(x, w[i]), what << " element " << i << " is "
               << (cdouble)x << " for " << w[i]);
    }
}

template<class T> void elementwise(pbt::Gen& g)
{
    typedef typename Traits<T>::R R;
    int f = g.below(14);
    if (f == FLOOR && Traits<T>::cplx)
        f = EXP;
    bool scalar = g.rare(4);
    Shape s = scalar ? Shape{1} : genShape(g, 1 + g.weighted({4, 3, 1, 1}), 60);
    std::vector<T> d;
    for (int i=0; i<product(s); i++)
    {
        T x = argument<T>(g, f);
        if (f == POW && x == (T)0)
            x = (T)1;
        d.push_back(x);
    }
    T y = argument<T>(g, f);
    var vy = y;
    if (f == POW)
    {
        // Powers that are whole, of any type
        if (!Traits<T>::cplx && g.flip())
        {
            // Any power of what is positive
            for (auto& x : d)
                x = (T)std::abs(x);
            double p = g.range(-3000000, 3000000) / 1e6;
            y = (T)p;
            vy = g.flip() ? var(p) : var((float)p);
            if (vy.atype() == lu::TYPE_FLOAT)
                y = (T)(float)p;
        }
        else if (g.flip() || !Traits<T>::cplx)
        {
            int k = g.range(-3, 4);
            y = (T)k;
            vy = g.flip() ? var(k) : var((double)k);
        }
        else
        {
            y = y / (R)8;
            vy = y;
        }
    }
    std::vector<cdouble> w;
    for (T x : d)
        w.push_back(functionOf<T>(f, x, y));
    Tensor<T> a;
    if (scalar)
    {
        a.shape = s;
        a.data = d;
        a.v = d[0];
    }
    else
        a = hold(g, s, d);
    g.trace << FUN[f] << " " << a << " power " << (cdouble)y;
    switch (g.below(3))
    {
    case 0:
    {
        g.trace << " functional";
        var r = call(f, a.v, vy);
        CHECK(a, "operand");
        if (alwaysReal(f))
            checkElements<R, T>(r, s, w, "result");
        else
            checkElements<T, T>(r, s, w, "result");
        break;
    }
    case 1:
    {
        // A scalar takes the type of the result
        g.trace << " in place";
        bool cd = (int)Traits<T>::code == (int)lu::TYPE_CDOUBLE
            && product(s) == 1 && a.all.empty();
        var r = g.flip() ? method(f, a.v, vy) : callOut(f, a.v, vy, a.v);
        if (alwaysReal(f) && (scalar || cd))
        {
            if (Traits<T>::cplx && a.v.atype() == (int)Traits<T>::code)
                checkElements<T, T>(a.v, s, w, "result in place");
            else
                checkElements<R, T>(a.v, s, w, "result in place");
        }
        else
        {
            checkElements<T, T>(a.v, s, w, "result in place");
            checkElements<T, T>(r, s, w, "returned");
        }
        if (!a.all.empty())
        {
            // The rest of the array is as it was
            for (size_t i=0; i<a.all.size(); i++)
                if ((int)i < a.off || (int)i >= a.off + a.size())
                    EXPECT(a.back.at((int)i).template get<T>() == a.all[i],
                           "element " << i << " behind window");
        }
        break;
    }
    case 2:
    {
        g.trace << " to output";
        if (alwaysReal(f))
        {
            Tensor<R> o = gen<R>(g, s);
            callOut(f, a.v, vy, o.v);
            checkElements<R, T>(o.v, s, w, "output");
        }
        else
        {
            Tensor<T> o = gen<T>(g, s);
            callOut(f, a.v, vy, o.v);
            checkElements<T, T>(o.v, s, w, "output");
        }
        CHECK(a, "operand");
        break;
    }
    }
    g.nontrivial(product(s) > 1);
    g.label(FUN[f]);
}

PROPERTY(C23, elementwise, 120000,
         "sin to norm and pow, of scalars and of tensors to 4 dimensions of "
         "the 4 floating types, whole or windows; functional, in place, as a "
         "method, and to a given output; non-trivial if of 2 or more elements")
{
    FOR_FLOAT(g.below(4), elementwise, g);
}

PROPERTY(C23, collections, 40000,
         "the same functions of arrays and maps of numbers of several types, "
         "and of arrays and maps of those; integers are refused; non-trivial "
         "if nested")
{
    Node n = genNode(g, 3, true);
    if (n.e.empty())
        return;
    int f = g.pick({SIN, COS, TAN, ATAN, FLOOR, SQRT, EXP});
    each(n, [&](Node& x) {
        // So that the results are all finite
        double y = std::abs(x.x.real());
        while (y > 20)
            y /= 4;
        x.x = x.type == lu::TYPE_FLOAT ? (float)y : y;
    });
    show(g.trace, n);
    g.trace << FUN[f];
    Node w = n;
    each(w, [&](Node& x) {
        x.x = x.type == lu::TYPE_FLOAT
            ? functionOf<float>(f, (float)x.x.real(), 0)
            : functionOf<double>(f, x.x.real(), 0);
    });
    bool nested = false;
    for (auto& x : n.e)
        nested = nested || !x.e.empty();
    g.nontrivial(nested);
    var v = buildNode(n);
    std::string s;
    if (g.flip())
    {
        g.trace << " functional";
        var r = call(f, v, 0);
        s = differs(r, w, 1e-6);
        EXPECT(s.empty(), "result: " << s);
        s = differs(v, n, 0);
        EXPECT(s.empty(), "operand: " << s);
    }
    else
    {
        g.trace << " in place";
        method(f, v, 0);
        s = differs(v, w, 1e-6);
        EXPECT(s.empty(), "result in place: " << s);
    }
}

PROPERTY(C23, refused, 20000,
         "the same functions of integers, text and nil, alone or in arrays, "
         "are refused and leave them as they were; all non-trivial")
{
    int f = g.below(14);
    Shape s = {1 + g.below(6)};
    bool threw;
    auto go = [&](var v) {
        switch (g.below(2))
        {
        case 0:
            threw = throws([&] { var r = call(f, v, 2); });
            break;
        default:
            threw = throws([&] { method(f, v, 2); });
        }
        EXPECT(threw, FUN[f] << " accepted");
    };
    switch (g.below(4))
    {
    case 0:
    {
        Tensor<int> t = gen<int>(g, s);
        g.trace << FUN[f] << t;
        go(t.v);
        std::string x = t.wrong();
        EXPECT(x.empty(), "operand: " << x);
        break;
    }
    case 1:
    {
        Tensor<long> t = gen<long>(g, s);
        g.trace << FUN[f] << t;
        go(t.v);
        std::string x = t.wrong();
        EXPECT(x.empty(), "operand: " << x);
        break;
    }
    case 2:
    {
        var v = "text";
        g.trace << FUN[f] << " text";
        go(v);
        EXPECT(v == "text", "operand");
        break;
    }
    case 3:
    {
        var v = g.range(-9, 9);
        var w = v;
        g.trace << FUN[f] << " " << v.get<int>();
        go(v);
        EXPECT(v == w && v.type() == lu::TYPE_INT, "operand");
        break;
    }
    }
    g.nontrivial();
}

template<class T> void overlap1(pbt::Gen& g)
{
    int f = g.pick({SIN, COS, TAN, ATAN, FLOOR, EXP, REAL, ABS, POW, POW});
    if (Traits<T>::cplx && (f == FLOOR || f == REAL || f == ABS))
        f = SIN;
    Shape s = genShape(g, 1 + g.weighted({5, 4, 2}), 40);
    if (product(s) == 1)
        s = Shape{2};
    int n = product(s);
    int total = n + g.below(n + 3);
    Base<T> base = genBase<T>(g, total, false);
    // Small enough for exp() and such
    for (int i=0; i<total; i++)
    {
        base.all[i] = base.all[i] / (T)128;
        if (f == POW && !Traits<T>::cplx)
            base.all[i] = (T)std::abs(base.all[i]);
        base.back.template ptr<T>()[i] = base.all[i];
    }
    int offA = g.below(total - n + 1);
    int offO = g.flip() ? offA : g.below(total - n + 1);
    int offB = g.below(total);
    T y = base.all[offB];
    var a = base.at(g, s, offA);
    g.trace << " " << FUN[f] << " ";
    var b = 0;
    if (f == POW)
        b = var(base.back[offB]);
    g.trace << "power " << offB << " to ";
    std::vector<T> w = base.all;
    for (int i=0; i<n; i++)
    {
        cdouble x = functionOf<T>(f, base.all[offA + i], y);
        if constexpr (Traits<T>::cplx)
            w[offO + i] = (T)x;
        else
            w[offO + i] = (T)x.real();
    }
    if (offA == offO && g.flip())
    {
        g.trace << "itself";
        if (f == POW)
        {
            if (g.flip())
                method(f, a, base.back[offB]);
            else
                callOut(f, a, base.back[offB], a);
        }
        else
            method(f, a, b);
    }
    else
    {
        var o = base.at(g, s, offO);
        if (f == POW)
            callOut(f, a, base.back[offB], o);
        else
            callOut(f, a, b, o);
    }
    base.all = w;
    std::string why = base.wrong();
    EXPECT(why.empty(), why);
    g.nontrivial(offA != offO || (offB >= offO && offB < offO + n));
    g.label(FUN[f]);
}

PROPERTY(C23, overlap, 40000,
         "functions of a window on an array to another window on the same "
         "one, and powers that are an element of it: the result is that of "
         "the operands as they were; non-trivial if the windows differ or "
         "the power is written")
{
    FOR_FLOAT(g.below(4), overlap1, g);
}

// --- C24 Reductions and products

template<class T> double mag(T x) { return std::abs((cdouble)x); }
template<class T> double mag1(T x)
{
    return std::abs(std::real(x)) + std::abs(std::imag(x));
}

static Shape reduced(const Shape& s)
{
    if (s.size() == 1)
        return {1};
    Shape r = s;
    r.back() = 1;
    return r;
}

template<class R>
void checkScaled(const var& r, const Shape& s, const std::vector<R>& w,
                 const std::vector<double>& scale, const char* what)
{
    EXPECT(r.defined(), what << " undefined");
    EXPECT_EQ((int)(long)r.atype(), (int)Traits<R>::code, "type");
    EXPECT_EQ(r.size(), (int)w.size(), "size");
    EXPECT_EQ(r.dim(), (int)s.size(), "dimensions");
    for (size_t i=0; i<s.size(); i++)
        EXPECT_EQ(r.shape((int)i), s[i], "shape");
    for (size_t i=0; i<w.size(); i++)
    {
        R x = r.at((int)i).template get<R>();
        EXPECT(near(x, w[i], scale[i], 4 * epsilon<R>()), what << " element "
               << i << " is " << (cdouble)x << " for " << (cdouble)w[i]);
    }
}

/** Nothing is written but in the window */
template<class T> void checkBehind(const Tensor<T>& r)
{
    for (int i=0; i<(int)r.all.size(); i++)
        if (i < r.off || i >= r.off + r.size())
            EXPECT(r.back.at(i).template get<T>() == r.all[i],
                   "element " << i << " behind window");
}

template<class T> void reduction(pbt::Gen& g)
{
    typedef typename Traits<T>::R R;
    Shape s = genShape(g, 1 + g.weighted({4, 3, 2, 1}));
    Tensor<T> a = gen<T>(g, s);
    bool one = a.size() == 1 && (int)Traits<T>::code == (int)lu::TYPE_CDOUBLE;
    int n = s.back(), rows = a.size() / n;
    Shape o = reduced(s);
    int f = g.below(4);
    if ((f == 1 && Traits<T>::cplx) || ((f == 2 || f == 3) && one))
        f = 0;
    bool out = rows > 1 && g.flip();
    static const char* NAME[] = {"sum", "asum", "iamax", "dot"};
    g.trace << NAME[f] << " " << a;
    switch (f)
    {
    case 0:
    {
        std::vector<T> w;
        std::vector<double> scale;
        for (int i=0; i<rows; i++)
        {
            T x = 0;
            double m = 0;
            for (int k=0; k<n; k++)
            {
                x += a.data[i*n+k];
                m += mag(a.data[i*n+k]);
            }
            w.push_back(x);
            scale.push_back(m * n);
        }
        if (out)
        {
            Tensor<T> r = gen<T>(g, o);
            lu::sum(a.v, r.v);
            checkScaled<T>(r.v, o, w, scale, "output");
            checkBehind(r);
        }
        else
            checkScaled<T>(lu::sum(a.v), o, w, scale, "result");
        break;
    }
    case 1:
    {
        std::vector<R> w;
        std::vector<double> scale;
        for (int i=0; i<rows; i++)
        {
            double x = 0;
            for (int k=0; k<n; k++)
                x += mag(a.data[i*n+k]);
            w.push_back((R)x);
            scale.push_back(x * n);
        }
        if (out)
        {
            Tensor<R> r = gen<R>(g, o);
            lu::asum(a.v, r.v);
            checkScaled<R>(r.v, o, w, scale, "output");
            checkBehind(r);
        }
        else
            checkScaled<R>(lu::asum(a.v), o, w, scale, "result");
        break;
    }
    case 2:
    {
        var r;
        Tensor<long> t;
        if (out)
        {
            t = gen<long>(g, o);
            lu::iamax(a.v, t.v);
            checkBehind(t);
            r = t.v;
        }
        else
            r = lu::iamax(a.v);
        EXPECT_EQ((int)(long)r.atype(), (int)lu::TYPE_LONG, "type");
        EXPECT_EQ(r.size(), rows, "size");
        for (size_t i=0; i<o.size() && s.size() > 1; i++)
            EXPECT_EQ(r.shape((int)i), o[i], "shape");
        for (int i=0; i<rows; i++)
        {
            int w = 0;
            for (int k=1; k<n; k++)
                if (mag1(a.data[i*n+k]) > mag1(a.data[i*n+w]))
                    w = k;
            EXPECT_EQ((int)r.at(i).template get<long>(), w, "index");
        }
        break;
    }
    case 3:
    {
        Tensor<T> b = gen<T>(g, {n});
        g.trace << " . " << b;
        std::vector<T> w;
        std::vector<double> scale;
        for (int i=0; i<rows; i++)
        {
            cdouble x = 0;
            double m = 0;
            for (int k=0; k<n; k++)
            {
                x += std::conj((cdouble)a.data[i*n+k]) * (cdouble)b.data[k];
                m += mag(a.data[i*n+k]) * mag(b.data[k]);
            }
            T y;
            if constexpr (Traits<T>::cplx)
                y = (T)x;
            else
                y = (T)x.real();
            w.push_back(y);
            scale.push_back(m * n);
        }
        if (out)
        {
            Tensor<T> r = gen<T>(g, o);
            lu::dot(a.v, b.v, r.v);
            checkScaled<T>(r.v, o, w, scale, "output");
            checkBehind(r);
        }
        else
            checkScaled<T>(lu::dot(a.v, b.v), o, w, scale, "result");
        CHECK(b, "right operand");
        break;
    }
    }
    CHECK(a, "operand");
    g.label(NAME[f]);
    g.nontrivial(rows > 1 && n > 1);
}

PROPERTY(C24, reduction, 120000,
         "sum, sum of absolute values, index of largest and dot product over "
         "the last dimension of tensors to 4 dimensions of the 4 floating "
         "types, whole or windows, against loops; non-trivial if 2 or more "
         "rows of 2 or more elements")
{
    FOR_FLOAT(g.below(4), reduction, g);
}

// Long arrays of repeated values, so that the sums are exact
template<class T> void lengthy(pbt::Gen& g)
{
    int n = g.pick({255, 256, 4096, 32767, 32768, 40000, 65535, 65536, 70000});
    n += g.below(5);
    int period = 1 + g.below(7), peak = g.below(n);
    std::vector<T> u(period), b(period);
    for (auto& x : u)
        x = (T)g.range(-2, 2);
    for (auto& x : b)
        x = (T)g.range(-2, 2);
    std::vector<T> d(n), e(n);
    for (int i=0; i<n; i++)
    {
        d[i] = u[i % period];
        e[i] = b[(i / 3) % period];
    }
    d[peak] = (T)(g.flip() ? 7 : -7);
    static const char* NAME[] = {"sum", "asum", "iamax", "dot"};
    int f = g.below(4);
    g.trace << NAME[f] << " of " << n << " by " << period << " peak " << peak;
    Tensor<T> a = hold(g, Shape{n}, d), c;
    var r;
    cdouble want = 0;
    switch (f)
    {
    case 0:
        for (auto& x : d)
            want += (cdouble)x;
        r = lu::sum(a.v);
        break;
    case 1:
        if (Traits<T>::cplx)
            return;
        for (auto& x : d)
            want += mag(x);
        r = lu::asum(a.v);
        break;
    case 2:
        want = (double)peak;
        r = lu::iamax(a.v);
        break;
    case 3:
        c = hold(g, Shape{n}, e);
        for (int i=0; i<n; i++)
            want += (cdouble)d[i] * (cdouble)e[i];
        r = lu::dot(a.v, c.v);
        break;
    }
    cdouble x = f == 2 ? cdouble((double)r.cast<long>(), 0)
        : r.cast<cdouble>();
    EXPECT(x == want, x << " for " << want);
    g.nontrivial();
    g.label(n > 32767, "more than 32767");
    g.label(n > 65535, "more than 65535");
}

PROPERTY(C24, lengthy, 1500,
         "the same of arrays of up to 70000 elements of which the exact "
         "results are known; all non-trivial")
{
    FOR_FLOAT(g.below(4), lengthy, g);
}

template<class T> void product(pbt::Gen& g)
{
    // (..., m, k) . (k, n)
    Shape s = genShape(g, 2 + g.weighted({5, 2, 1}));
    int k = s.back(), n = 1 + g.below(9);
    bool bad = g.rare(8);
    int kb = k;
    if (bad)
    {
        kb = k + (g.flip() && k > 1 ? -1 : 1);
        g.label("refused");
    }
    Tensor<T> a = gen<T>(g, s), b = gen<T>(g, {kb, n});
    g.trace << a << " . " << b;
    Shape o = s;
    o.back() = n;
    int rows = a.size() / k;
    if (bad)
    {
        EXPECT(throws([&] { var r = lu::dot(a.v, b.v); }), "accepted");
        CHECK(a, "left operand");
        CHECK(b, "right operand");
        return;
    }
    std::vector<T> w(rows * n);
    std::vector<double> scale(rows * n);
    for (int i=0; i<rows; i++)
        for (int j=0; j<n; j++)
        {
            double x = 0, m = 0;
            for (int l=0; l<k; l++)
            {
                double y = (double)a.data[i*k+l] * b.data[l*n+j];
                x += y;
                m += std::abs(y);
            }
            w[i*n+j] = (T)x;
            scale[i*n+j] = m * k;
        }
    if (g.flip())
    {
        Tensor<T> r = gen<T>(g, o);
        lu::dot(a.v, b.v, r.v);
        checkScaled<T>(r.v, o, w, scale, "output");
        checkBehind(r);
    }
    else
        checkScaled<T>(lu::dot(a.v, b.v), o, w, scale, "result");
    CHECK(a, "left operand");
    CHECK(b, "right operand");
    g.nontrivial(rows > 1 && k > 1 && n > 1);
    g.label(s.size() > 2, "more than 2 dimensions");
}

PROPERTY(C24, product, 60000,
         "products of matrices, and of tensors to 4 dimensions and a matrix, "
         "against the triple loop; mismatched ones are refused; non-trivial if "
         "no dimension is 1")
{
    if (g.flip())
        product<double>(g);
    else
        product<float>(g);
}

template<class T> void overlap2(pbt::Gen& g)
{
    int f = g.below(4);
    if (Traits<T>::cplx && (f == 1 || f == 3))
        f = 2;
    static const char* NAME[] = {"sum", "asum", "dot", "product"};
    Shape s = genShape(g, 2, 40);
    int m = s[0], k = s[1], n = 1 + g.below(5);
    Shape b, o = {m, 1};
    switch (f)
    {
    case 2: b = {k}; break;
    case 3: b = {k, n}; o = {m, n}; break;
    }
    int nb = f > 1 ? product(b) : 0;
    int total = std::max(m*k, std::max(nb, product(o))) + g.below(m*k + 3);
    if (total < 2)
        total = 2;
    Base<T> base = genBase<T>(g, total);
    for (int i=0; i<total; i++)
        base.back.template ptr<T>()[i] = base.all[i]
            = (T)(base.all[i] - base.all[i] + (T)g.range(-9, 9));
    g.trace << "= [";
    for (auto& x : base.all)
        g.trace << (cdouble)x << " ";
    g.trace << "] " << NAME[f] << " ";
    int offA = g.below(total - m*k + 1);
    int offB = g.below(total - nb + 1);
    int offO = g.below(total - product(o) + 1);
    std::vector<T> w = base.all;
    for (int i=0; i<m; i++)
        for (int j=0; j<o[1]; j++)
        {
            T x = 0;
            for (int l=0; l<k; l++)
            {
                T y = base.all[offA + i*k + l];
                switch (f)
                {
                case 0: x += y; break;
                case 1: x += (T)mag(y); break;
                case 2:
                    if constexpr (Traits<T>::cplx)
                        y = std::conj(y);
                    x += y * base.all[offB + l];
                    break;
                case 3: x += y * base.all[offB + l*n + j]; break;
                }
            }
            w[offO + i*o[1] + j] = x;
        }
    auto window = [&](const Shape& t, int off) {
        g.trace << str(t) << "@" << off << " ";
        return var(base.back.view(shapeVar(t), off));
    };
    var va = window(s, offA), vb, vo;
    if (f > 1)
        vb = window(b, offB);
    vo = window(o, offO);
    bool threw = throws([&] {
        switch (f)
        {
        case 0: lu::sum(va, vo); break;
        case 1: lu::asum(va, vo); break;
        default: lu::dot(va, vb, vo);
        }
    });
    // A product that starts where the left operand does may be refused
    EXPECT(!threw || (f > 1 && offA == offO), "refused");
    if (!threw)
        base.all = w;
    std::string why = base.wrong();
    EXPECT(why.empty(), (threw ? "refused, but " : "") << why);
    auto meets = [&](int x, int nx) {
        return x < offO + product(o) && offO < x + nx;
    };
    g.nontrivial(meets(offA, m*k) || (f > 1 && meets(offB, nb)));
    g.label(NAME[f]);
}

PROPERTY(C24, overlap, 40000,
         "reductions and products of windows on an array to a window on the "
         "same one: the result is that of the operands as they were; "
         "non-trivial if an operand is partly written")
{
    FOR_FLOAT(g.below(4), overlap2, g);
}

// --- C25 Transposition

namespace libube { const UnaryFunctor& transposeOther(); }

// To an overlapping window on the same array
template<class T> void overlap3(pbt::Gen& g, const lu::UnaryFunctor& f)
{
    Shape s = genShape(g, 2 + g.below(2), 40);
    int d = (int)s.size(), r = s[d-2], c = s[d-1], n = product(s);
    Base<T> base = genBase<T>(g, n + 1 + g.below(n + 1));
    int total = (int)base.all.size();
    int offA = g.below(total - n + 1), offO = g.below(total - n + 1);
    if (offA == offO)
        return; // In place
    Shape o = s;
    std::swap(o[d-2], o[d-1]);
    std::vector<T> w = base.all;
    for (int b=0; b<n; b+=r*c)
        for (int i=0; i<r; i++)
            for (int j=0; j<c; j++)
                w[offO + b + j*r + i] = base.all[offA + b + i*c + j];
    g.trace << str(s) << "@" << offA << " to @" << offO;
    var va = base.back.view(shapeVar(s), offA);
    var vo = base.back.view(shapeVar(o), offO);
    f(va, vo);
    base.all = w;
    std::string why = base.wrong();
    EXPECT(why.empty(), why);
    g.label("overlap");
    g.nontrivial();
}

template<class T> void transposed(pbt::Gen& g)
{
    Shape s = genShape(g, 2 + g.weighted({5, 2, 1}));
    Tensor<T> a = gen<T>(g, s);
    bool other = g.flip();
    const lu::UnaryFunctor& f = other ? lu::transposeOther()
        : (const lu::UnaryFunctor&)lu::transpose;
    if (g.rare(8))
    {
        overlap3<T>(g, f);
        return;
    }
    g.trace << (other ? "adhoc " : "mkl ") << a;
    int d = (int)s.size(), r = s[d-2], c = s[d-1];
    Shape o = s;
    std::swap(o[d-2], o[d-1]);
    std::vector<T> w(a.size());
    for (int b=0; b<a.size(); b+=r*c)
        for (int i=0; i<r; i++)
            for (int j=0; j<c; j++)
                w[b + j*r + i] = a.data[b + i*c + j];
    switch (g.below(3))
    {
    case 0:
    {
        g.trace << " functional";
        Tensor<T> t;
        t.shape = o;
        t.data = w;
        t.v = f(a.v);
        CHECK(t, "result");
        CHECK(a, "operand");
        var back = f(t.v);
        t.v = back;
        t.shape = s;
        t.data = a.data;
        CHECK(t, "transposed twice");
        break;
    }
    case 1:
    {
        g.trace << " in place";
        var alias = a.v;
        if (!other && g.flip())
            a.v.transpose();
        else
            f(a.v, a.v);
        a.shape = o;
        a.set(w);
        CHECK(a, "result in place");
        EXPECT(alias.is(a.v), "no longer the same");
        // Indexing follows
        Shape i;
        if (d == 2)
        {
            int x = g.below(c), y = g.below(r);
            EXPECT_EQ(a.v(x, y).template get<T>(), w[x*r + y], "element");
        }
        break;
    }
    case 2:
    {
        g.trace << " to output";
        Tensor<T> t = gen<T>(g, o);
        f(a.v, t.v);
        t.set(w);
        CHECK(t, "output");
        CHECK(a, "operand");
        break;
    }
    }
    g.nontrivial(r > 1 && c > 1 && r != c);
    g.label(d > 2, "more than 2 dimensions");
}

PROPERTY(C25, transpose, 120000,
         "matrices and tensors to 4 dimensions, whole or windows, transposed "
         "by both implementations, in place, functionally, twice, and to an "
         "output; non-trivial if neither square nor a vector")
{
    if (g.flip())
        transposed<double>(g);
    else
        transposed<float>(g);
}

// --- C28 Concatenation and exchange

template<class T> void concatenated(pbt::Gen& g)
{
    int n = 1 + g.below(4);
    Shape s = genShape(g, 1 + g.weighted({4, 3, 1}), 60);
    std::vector<Tensor<T>> t;
    var all;
    int bad = n > 1 && g.rare(6) ? 1 + g.below(n - 1) : 0;
    int last = 0;
    for (int i=0; i<n; i++)
    {
        Shape x = s;
        x.back() = 1 + g.below(6);
        if (s.size() == 1 && (int)Traits<T>::code == (int)lu::TYPE_CDOUBLE)
            x.back()++;
        if (i && i == bad)
        {
            if (x.size() > 1 && g.flip())
                x[g.below((int)x.size() - 1)]++;
            else
                x.insert(x.begin(), 1 + g.below(2));
        }
        last += x.back();
        t.push_back(gen<T>(g, x));
        g.trace << t.back() << " ";
        all[i] = t.back().v;
    }
    var r;
    bool threw = throws([&] { r = lu::concatenate(all); });
    for (auto& x : t)
        CHECK(x, "operand");
    EXPECT_EQ(threw, bad > 0, "refused");
    if (bad)
    {
        g.label("refused");
        return;
    }
    Tensor<T> w;
    w.shape = s;
    w.shape.back() = last;
    int rows = product(s) / s.back();
    for (int i=0; i<rows; i++)
        for (auto& x : t)
        {
            int k = x.shape.back();
            w.data.insert(w.data.end(), x.data.begin() + i*k,
                          x.data.begin() + (i+1)*k);
        }
    w.v = r;
    CHECK(w, "result");
    // It's a copy
    *r.ptr<T>() = (T)77;
    for (auto& x : t)
        CHECK(x, "operand after change of result");
    g.nontrivial(n > 1 && rows > 1);
}

PROPERTY(C28, concatenate, 60000,
         "up to 4 tensors to 3 dimensions of the 4 floating types joined "
         "along the last dimension, or refused if others differ; non-trivial "
         "if 2 or more tensors of 2 or more rows")
{
    FOR_FLOAT(g.below(4), concatenated, g);
}

template<class T> void swapped(pbt::Gen& g)
{
    Shape s = genShape(g, 1 + g.below(3));
    bool bad = g.rare(6);
    Shape t = s;
    if (bad)
        t[g.below((int)t.size())]++;
    Tensor<T> a = gen<T>(g, s), b = gen<T>(g, t);
    if ((a.size() == 1 || b.size() == 1)
        && (int)Traits<T>::code == (int)lu::TYPE_CDOUBLE)
        return;
    g.trace << a << " " << b;
    var x = a.v, y = b.v;
    bool threw = throws([&] { lu::swap(x, y); });
    if (bad)
        EXPECT(threw, "accepted");
    else
    {
        EXPECT(!threw, "refused");
        std::vector<T> d = a.data;
        a.set(b.data);
        b.set(d);
    }
    CHECK(a, "first");
    CHECK(b, "second");
    EXPECT(x.is(a.v) && y.is(b.v), "other arrays");
    g.nontrivial(s.size() > 1 && !bad);
    g.label(bad, "refused");
}

PROPERTY(C28, swap, 60000,
         "pairs of tensors to 3 dimensions of the 4 floating types exchange "
         "content; different shapes are refused; non-trivial if of 2 or more "
         "dimensions")
{
    FOR_FLOAT(g.below(4), swapped, g);
}

// --- C27 Polynomials

template<class T> void polynomial(pbt::Gen& g)
{
    // The coefficients from the roots
    Shape s = genShape(g, 1 + g.below(3), 40);
    if (s.back() > 8)
        s.back() = 8;
    std::vector<T> d;
    for (int i=0; i<product(s); i++)
        d.push_back(Make<T>::one(g) / (typename Traits<T>::R)4);
    Tensor<T> a = hold(g, s, d);
    if (a.size() == 1 && (int)Traits<T>::code == (int)lu::TYPE_CDOUBLE)
        return;
    g.trace << "poly " << a;
    int n = s.back(), rows = a.size() / n;
    Shape o = s;
    o.back()++;
    std::vector<T> w;
    std::vector<double> scale;
    for (int i=0; i<rows; i++)
    {
        std::vector<cdouble> c = {1.0};
        std::vector<double> m = {1.0};
        for (int k=0; k<n; k++)
        {
            cdouble x = a.data[i*n+k];
            c.push_back(0);
            m.push_back(0);
            for (int j=(int)c.size()-1; j>0; j--)
            {
                c[j] -= x * c[j-1];
                m[j] += std::abs(x) * m[j-1];
            }
        }
        for (size_t j=0; j<c.size(); j++)
        {
            T y;
            if constexpr (Traits<T>::cplx)
                y = (T)c[j];
            else
                y = (T)c[j].real();
            w.push_back(y);
            scale.push_back(m[j] * n);
        }
    }
    if (g.flip())
    {
        Tensor<T> r = gen<T>(g, o);
        lu::poly(a.v, r.v);
        checkScaled<T>(r.v, o, w, scale, "output");
        checkBehind(r);
    }
    else
        checkScaled<T>(lu::poly(a.v), o, w, scale, "coefficients");
    CHECK(a, "operand");
    g.nontrivial(n > 1);
    g.label(rows > 1, "several");
}

PROPERTY(C27, poly, 60000,
         "up to 8 roots of each of up to 40 polynomials in tensors to 3 "
         "dimensions of the 4 floating types, multiplied out; non-trivial if "
         "2 or more roots")
{
    FOR_FLOAT(g.below(4), polynomial, g);
}

template<class T> void rooted(pbt::Gen& g)
{
    // Roots well apart, real or in conjugate pairs
    typedef std::complex<T> C;
    int n = 1 + g.below(std::is_same<T, float>::value ? 5 : 7);
    int rows = 1 + g.below(3);
    Shape s = rows > 1 ? Shape{rows, n + 1} : Shape{n + 1};
    std::vector<T> d;
    std::vector<std::vector<cdouble>> r;
    for (int i=0; i<rows; i++)
    {
        // Distinct points of a grid
        std::vector<cdouble> x;
        while ((int)x.size() < n)
        {
            double re = g.range(-4, 4) * 0.5;
            double im = (n - (int)x.size()) > 1 && g.flip()
                ? g.range(1, 3) * 0.5 : 0;
            bool have = false;
            for (int tries=0; tries<200; tries++)
            {
                have = false;
                for (auto& y : x)
                    have = have || y == cdouble(re, im);
                if (!have)
                    break;
                re += 0.5;
                if (re > 2)
                    re = -2;
                if (tries % 9 == 8 && im > 0)
                    im += 0.5;
            }
            if (have)
                break;
            x.push_back(cdouble(re, im));
            if (im > 0)
                x.push_back(cdouble(re, -im));
        }
        r.push_back(x);
        std::vector<cdouble> c = {1.0};
        for (auto& y : x)
        {
            c.push_back(0);
            for (int j=(int)c.size()-1; j>0; j--)
                c[j] -= y * c[j-1];
        }
        double lead = g.pick({1.0, 1.0, 2.0, -1.0, 0.5, -3.0});
        for (auto& y : c)
            d.push_back((T)(y.real() * lead));
    }
    Tensor<T> a = hold(g, s, d);
    g.trace << "roots " << a;
    Shape o = s;
    o.back()--;
    Tensor<C> out;
    var v;
    if (g.flip() && product(o) > 1)
    {
        out = gen<C>(g, o);
        v = out.v;
        lu::roots(a.v, v);
        EXPECT(v.is(out.v), "no longer the same");
        checkBehind(out);
    }
    else
        v = lu::roots(a.v);
    EXPECT_EQ((int)(long)v.atype(), (int)Traits<C>::code, "type");
    EXPECT_EQ(v.size(), product(o), "size");
    EXPECT_EQ(v.dim(), (int)o.size(), "dimensions");
    for (size_t i=0; i<o.size(); i++)
        EXPECT_EQ(v.shape((int)i), o[i], "shape");
    double tol = std::is_same<T, float>::value ? 0.02 : 1e-5;
    for (int i=0; i<rows; i++)
    {
        std::vector<cdouble> x = r[i];
        for (int k=0; k<n; k++)
        {
            cdouble y = (cdouble)v.at(i*n + k).template get<C>();
            size_t b = 0;
            for (size_t j=1; j<x.size(); j++)
                if (std::abs(x[j] - y) < std::abs(x[b] - y))
                    b = j;
            EXPECT(std::abs(x[b] - y) < tol, "root " << y << " of polynomial "
                   << i << "; nearest " << x[b]);
            x.erase(x.begin() + b);
        }
    }
    CHECK(a, "operand");
    g.nontrivial(n > 1);
    g.label(rows > 1, "several");
}

// Roots spread about a circle are well conditioned to any degree:
// c (x^n - a x^m) and its roots of 0
template<class T> void circle(pbt::Gen& g)
{
    typedef std::complex<T> C;
    int n = 2 + g.below(g.rare(6) ? 140 : 30);
    double a = g.pick({1.0, -1.0, 0.5, 3.0, -2.0});
    double lead = g.pick({1.0, 2.0, -1.0, -3.0});
    std::vector<T> d(n + 1, (T)0);
    d[0] = (T)lead;
    d[n] = (T)(-a * lead);
    g.trace << "roots " << lead << " (x^" << n << " - " << a << ")";
    Tensor<T> p = hold(g, {n + 1}, d);
    var v = lu::roots(p.v);
    EXPECT_EQ(v.size(), n, "size");
    double rad = std::pow(std::abs(a), 1.0 / n);
    double at = a < 0 ? M_PI / n : 0;
    double tol = std::is_same<T, float>::value ? 1e-3 : 1e-9;
    std::vector<bool> seen(n, false);
    for (int k=0; k<n; k++)
    {
        cdouble y = (cdouble)v.at(k).template get<C>();
        long j = std::lround((std::arg(y) - at) * n / (2*M_PI));
        j = ((j % n) + n) % n;
        cdouble z = std::polar(rad, at + 2*M_PI * j / n);
        EXPECT(std::abs(y - z) < tol * n && !seen[j],
               "root " << y << " nearest " << z
               << (seen[j] ? ", found twice" : ""));
        seen[j] = true;
    }
    CHECK(p, "operand");
    g.nontrivial(n > 2);
    g.label(n > 64, "more than 64");
}

PROPERTY(C27, circle, 4000,
         "polynomials of degree 2 to 140 of which the roots lie around a "
         "circle; each is found once; non-trivial if 3 or more")
{
    if (g.flip())
        circle<double>(g);
    else
        circle<float>(g);
}

PROPERTY(C27, roots, 40000,
         "polynomials multiplied out from up to 7 distinct real roots and "
         "conjugate pairs, one or several, with any leading coefficient; the "
         "same roots are found; non-trivial if 2 or more")
{
    if (g.flip())
        rooted<double>(g);
    else
        rooted<float>(g);
}

// --- Outputs that can't hold the result

namespace libube { const UnaryFunctor& transposeOther(); }

enum Out { ADD, SUB, MUL, SET, SUM, ASUM, IAMAX, DOT, PRODUCT, TRANSPOSE, POLY,
           ROOTS };
static const char* OUT[] = {
    "add", "sub", "mul", "set", "sum", "asum", "iamax", "dot", "product",
    "transpose", "poly", "roots"};

template<class T, class U>
void refusal(pbt::Gen& g, int f, Tensor<T>& a, Shape o, bool type)
{
    // The output is of another type, or has too few elements
    int cols = o.back();
    if (type)
    {
        if (g.flip())
            o[g.below((int)o.size())] += g.below(3);
    }
    else
    {
        std::vector<int> d;
        for (size_t i=0; i<o.size(); i++)
            if (o[i] > 1)
                d.push_back((int)i);
        if (d.empty())
            return;
        int i = d[g.below((int)d.size())];
        o[i] = 1 + g.below(o[i] - 1);
        if (g.rare(3))
            o = {product(o)};
    }
    Tensor<U> r = gen<U>(g, o);
    if ((type || f == SET) && r.size() == 1 &&
        (int)Traits<U>::code == (int)lu::TYPE_CDOUBLE)
        return; // It's a scalar; see C10
    Tensor<T> b;
    g.trace << OUT[f] << " " << a << " to " << r;
    bool threw = true;
    switch (f)
    {
    case ADD:
    case SUB:
    case MUL:
    case SET:
    {
        int k = 1 + g.below(a.dim());
        Shape t(a.shape.end() - k, a.shape.end());
        if (g.rare(3))
            t = {1};
        b = gen<T>(g, t);
        var x;
        if (product(t) == 1 && g.flip())
            x = (T)2;
        else
            x = b.v;
        threw = throws([&] {
            switch (f)
            {
            case ADD: lu::add(a.v, x, r.v); break;
            case SUB: lu::sub(a.v, x, r.v); break;
            case MUL: lu::mul(a.v, x, r.v); break;
            default: lu::set(a.v, x, r.v);
            }
        });
        // Assignment of one element converts it
        if (f == SET && type && product(t) == 1)
            return;
        break;
    }
    case SUM: threw = throws([&] { lu::sum(a.v, r.v); }); break;
    case ASUM: threw = throws([&] { lu::asum(a.v, r.v); }); break;
    case IAMAX: threw = throws([&] { lu::iamax(a.v, r.v); }); break;
    case DOT:
        b = gen<T>(g, {a.shape.back()});
        threw = throws([&] { lu::dot(a.v, b.v, r.v); });
        break;
    case PRODUCT:
        b = gen<T>(g, {a.shape.back(), cols});
        threw = throws([&] { lu::dot(a.v, b.v, r.v); });
        break;
    case TRANSPOSE:
    {
        const lu::UnaryFunctor& t = g.flip() ? lu::transposeOther()
            : (const lu::UnaryFunctor&)lu::transpose;
        threw = throws([&] { t(a.v, r.v); });
        break;
    }
    case POLY: threw = throws([&] { lu::poly(a.v, r.v); }); break;
    case ROOTS: threw = throws([&] { lu::roots(a.v, r.v); }); break;
    }
    EXPECT(threw, OUT[f] << " accepted " << r);
    CHECK(a, "operand");
    // Several operations may have been done before one doesn't fit
    if (!type)
    {
        EXPECT_EQ(r.v.size(), r.size(), "size of output");
        for (int i=0; i<r.size(); i++)
            r.data[i] = r.v.at(i).template get<U>();
        r.set(r.data);
        for (auto& x : r.data)
            if (x != x)
                return;
    }
    std::string why = r.wrong();
    EXPECT(why.empty(), "output: " << why);
    if (b.v.defined())
        CHECK(b, "right operand");
    g.nontrivial(a.dim() > 1);
    g.label(type ? "of another type" : "too small");
    g.label(!r.all.empty(), "window");
}

template<class T> void refusals(pbt::Gen& g, int f)
{
    typedef typename Traits<T>::R R;
    Shape s = genShape(g, f == TRANSPOSE || f == PRODUCT ? 2 + g.below(3)
                       : 1 + g.below(4), 60);
    if (f == ROOTS)
    {
        s.back() += 1;
        if (s.back() > 6)
            s.back() = 6;
    }
    Shape o = s;
    int d = (int)s.size();
    int code = Traits<T>::code;
    switch (f)
    {
    case SUM:
    case DOT:
        o = reduced(s);
        break;
    case ASUM:
        o = reduced(s);
        code = Traits<R>::code;
        break;
    case IAMAX:
        o = reduced(s);
        code = lu::TYPE_LONG;
        break;
    case PRODUCT: o.back() = 1 + g.below(5); break;
    case TRANSPOSE: std::swap(o[d-1], o[d-2]); break;
    case POLY: o.back()++; break;
    case ROOTS: o.back()--; break;
    }
    Tensor<T> a = gen<T>(g, s);
    if (a.size() == 1 && Traits<T>::code == lu::TYPE_CDOUBLE)
        return;
    if (f == ROOTS && a.data[0] == (T)0)
        return;
    int out = code;
    bool type = f != ROOTS && g.flip();
    if (type)
    {
        out = numericType(g);
        if (out == code)
            out = code == lu::TYPE_INT ? lu::TYPE_DOUBLE : lu::TYPE_INT;
    }
    else if (f == ROOTS)
        out = code == lu::TYPE_FLOAT ? lu::TYPE_CFLOAT : lu::TYPE_CDOUBLE;
    switch (out)
    {
    case lu::TYPE_CHAR: refusal<T, char>(g, f, a, o, type); break;
    case lu::TYPE_INT: refusal<T, int>(g, f, a, o, type); break;
    case lu::TYPE_LONG: refusal<T, long>(g, f, a, o, type); break;
    case lu::TYPE_FLOAT: refusal<T, float>(g, f, a, o, type); break;
    case lu::TYPE_DOUBLE: refusal<T, double>(g, f, a, o, type); break;
    case lu::TYPE_CFLOAT: refusal<T, cfloat>(g, f, a, o, type); break;
    default: refusal<T, cdouble>(g, f, a, o, type);
    }
}

#define OUTPUTS(p, n, what, ...)                                        \
    PROPERTY(p, outputs, n, what " given an output of another type or "  \
             "with too few elements, whole or a window, is refused, and " \
             "nothing but the output is written; non-trivial if of 2 or " \
             "more dimensions")                                         \
    {                                                                   \
        int f = g.pick(std::vector<int>{__VA_ARGS__});                  \
        if (f == ADD || f == SET || f == SUM || f == IAMAX || f == POLY) \
            FOR_FLOAT(g.below(4), refusals, g, f)                       \
        else                                                            \
            FOR_FLOAT(g.below(2), refusals, g, f)                       \
    }

OUTPUTS(C22, 40000, "arithmetic on tensors", ADD, SUB, MUL, SET)
OUTPUTS(C24, 40000, "reduction or product of tensors", SUM, ASUM, IAMAX, DOT,
        PRODUCT)
OUTPUTS(C25, 20000, "transposition of tensors", TRANSPOSE)
OUTPUTS(C27, 20000, "a polynomial or roots", POLY, ROOTS)

// --- C24 What isn't supported is refused

PROPERTY(C24, unsupported, 20000,
         "sum, sum of absolute values, index of largest and dot product of "
         "integers, text, complex (for the sum of absolute values) and in "
         "place are refused and leave the operand alone; sums of scalars are "
         "the scalars; all non-trivial")
{
    g.nontrivial();
    int f = g.below(4);
    static const char* NAME[] = {"sum", "asum", "iamax", "dot"};
    auto call = [&](var v) {
        switch (f)
        {
        case 0: return lu::sum(v);
        case 1: return lu::asum(v);
        case 2: return lu::iamax(v);
        default: return lu::dot(v, v);
        }
    };
    Shape s = genShape(g, 1 + g.below(3));
    if (product(s) == 1)
        s.back()++;
    g.trace << NAME[f] << " ";
#define REFUSE(T)                                               \
    {                                                           \
        Tensor<T> t = gen<T>(g, s);                             \
        g.trace << t;                                           \
        EXPECT(throws([&] { var r = call(t.v); }), "accepted"); \
        std::string why = t.wrong();                            \
        EXPECT(why.empty(), "operand: " << why);                \
        break;                                                  \
    }
    switch (g.below(6))
    {
    case 0: REFUSE(int)
    case 1: REFUSE(long)
    case 2: REFUSE(char)
    case 3:
        if (f == 1)
        {
            if (g.flip())
                REFUSE(cfloat)
            else
                REFUSE(cdouble)
        }
        else
        {
            f = 2 + g.below(2);
            Tensor<double> t = gen<double>(g, s);
            g.trace << "in place " << t;
            var w = t.v;
            EXPECT(throws([&] {
                if (f == 2)
                    lu::iamax(t.v, w);
                else
                    lu::dot(t.v, t.v, w);
            }), NAME[f] << " accepted in place");
            std::string why = t.wrong();
            EXPECT(why.empty(), "operand: " << why);
        }
        break;
    case 4:
    {
        var v = "text";
        if (g.flip())
            v = g.range(-9, 9);
        var w = v;
        EXPECT(throws([&] { var r = call(v); }), "accepted");
        EXPECT(v == w, "operand");
        break;
    }
    case 5:
    {
        // Scalars
        f = g.below(2);
        double x = g.range(-99, 99) / 4.0;
        double w = f ? std::abs(x) : x;
        var v = x;
        int k = g.below(3);
        if (k == 1)
            v = (float)x;
        if (k == 2)
        {
            double y = g.range(-9, 9);
            v = cfloat((float)x, (float)y);
            w = std::hypot(x, y);
        }
        g.trace << "scalar " << x;
        var r = f ? lu::asum(v) : lu::sum(v);
        if (k == 2 && f == 0)
            EXPECT(r == v && r.atype() == lu::TYPE_CFLOAT, "sum of scalar");
        else
        {
            EXPECT_EQ(r.size(), 1, "size");
            EXPECT_EQ((int)(long)r.atype(),
                      (int)(k ? lu::TYPE_FLOAT : lu::TYPE_DOUBLE), "type");
            EXPECT(near(r.cast<double>(), w, std::abs(w), 1e-6), "is "
                   << r.cast<double>() << " for " << w);
        }
        break;
    }
    }
    g.label(NAME[f]);
}

// --- C29 Functors defined by the user

namespace
{
    // What each call of vector() was given
    struct Seen
    {
        std::vector<std::vector<double>> in;
        std::vector<Shape> shape;
        void add(const var& v)
        {
            std::vector<double> x;
            Shape s;
            for (int i=0; i<v.size(); i++)
                x.push_back(v.at(i).get<double>());
            for (int i=0; i<v.dim(); i++)
                s.push_back(v.shape(i));
            in.push_back(x);
            shape.push_back(s);
        }
    };
    Seen seen;

    // Reverses the elements of the last mDim dimensions
    struct Reverse : public lu::UnaryFunctor
    {
        Reverse(int d) { mDim = d; }
        void vector(var iVar, var& oVar) const
        {
            seen.add(iVar);
            var t = iVar.copy();
            int n = t.size();
            for (int i=0; i<n; i++)
                oVar.at(i) = t.at(n-1-i).get<double>();
        }
    };

    // Dimensionless: twice plus one
    struct Line : public lu::UnaryFunctor
    {
        void scalar(const var& iVar, var& oVar) const
        {
            if (iVar.type() == lu::TYPE_ARRAY)
                broadcast(iVar, oVar);
            else
                oVar = iVar.get<double>() * 2 + 1;
        }
    };

    // Weighted difference of corresponding parts
    struct Pairwise : public lu::BinaryFunctor
    {
        Pairwise(int d) { mDim = d; }
        void vector(var iVar1, var iVar2, var& oVar) const
        {
            seen.add(iVar1);
            seen.add(iVar2);
            for (int i=0; i<iVar1.size(); i++)
                oVar.at(i) = iVar1.at(i).get<double>() * 3
                    - iVar2.at(i).get<double>() + i;
        }
    };

    // The same, with iVar2 repeated
    struct Repeated : public lu::ArithmeticFunctor
    {
        Repeated() { }
        using lu::ArithmeticFunctor::vector;
        void vector(var iVar1, libube::ind iOffset1,
                    var iVar2, libube::ind iOffset2,
                    var& oVar, libube::ind iOffsetO) const
        {
            int n = iVar2.size();
            for (int i=0; i<n; i++)
                oVar.ptr<double>(iOffsetO)[i]
                    = iVar1.ptr<double>(iOffset1)[i] * 3
                    - iVar2.ptr<double>(iOffset2)[i] + i;
        }
    };

    // Parts of different sizes end to end
    struct Joined : public lu::NaryFunctor
    {
        Joined(int d) { mDim = d; }
        void vector(var iVar, var& oVar) const
        {
            int k = 0;
            for (int j=0; j<iVar.size(); j++)
            {
                seen.add(iVar[j]);
                for (int i=0; i<iVar[j].size(); i++)
                    oVar.at(k++) = iVar[j].at(i).get<double>();
            }
        }
    };

    // Sum of corresponding parts of any number
    struct Total : public lu::NaryFunctor
    {
        Total(int d) { mDim = d; }
        void vector(var iVar, var& oVar) const
        {
            for (int i=0; i<iVar[0].size(); i++)
            {
                double x = i;
                for (int k=0; k<iVar.size(); k++)
                    x += iVar[k].at(i).get<double>() * (k + 1);
                oVar.at(i) = x;
            }
        }
    };
}

PROPERTY(C29, unary, 40000,
         "a functor of the last 0 to 3 dimensions, defined here, applied to "
         "tensors to 4 dimensions in place, functionally and to an output; "
         "each part is passed once, in order; more dimensions than there are "
         "is refused; non-trivial if 2 or more parts of 2 or more elements")
{
    typedef double T;
    Shape s = genShape(g, 1 + g.below(4), 100);
    Tensor<T> a = gen<T>(g, s);
    int k = g.below(4);
    g.trace << "last " << k << " of " << a;
    seen = Seen();
    std::vector<T> w = a.data;
    Reverse rev(k);
    Line line;
    const lu::UnaryFunctor& f = k ? (const lu::UnaryFunctor&)rev : line;
    int part = 1;
    if (k > (int)s.size())
    {
        EXPECT(throws([&] { var r = f(a.v); }), "accepted");
        CHECK(a, "operand");
        return;
    }
    Shape ps(s.end() - k, s.end());
    part = product(ps);
    if (k)
        for (int i=0; i<a.size(); i+=part)
            std::reverse(w.begin() + i, w.begin() + i + part);
    else
        for (auto& x : w)
            x = x * 2 + 1;
    std::vector<T> before = a.data;
    switch (g.below(3))
    {
    case 0:
    {
        g.trace << " functional";
        Tensor<T> t;
        t.v = f(a.v);
        t.shape = s;
        t.data = w;
        CHECK(t, "result");
        CHECK(a, "operand");
        break;
    }
    case 1:
        g.trace << " in place";
        f(a.v, a.v);
        a.set(w);
        CHECK(a, "result in place");
        break;
    case 2:
    {
        g.trace << " to output";
        Tensor<T> t = gen<T>(g, s);
        f(a.v, t.v);
        t.set(w);
        CHECK(t, "output");
        CHECK(a, "operand");
        break;
    }
    }
    if (k)
    {
        EXPECT_EQ((int)seen.in.size(), a.size() / part, "number of calls");
        for (size_t i=0; i<seen.in.size(); i++)
        {
            EXPECT(seen.shape[i] == ps, "shape " << str(seen.shape[i]));
            std::vector<double> x(before.begin() + i*part,
                                  before.begin() + (i+1)*part);
            EXPECT(seen.in[i] == x, "part " << i);
        }
    }
    g.nontrivial(part > 1 && a.size() > part);
}

PROPERTY(C29, binary, 40000,
         "functors of two or more operands defined here: of corresponding "
         "parts, of the second operand repeated over the first, and of any "
         "number of operands; non-trivial if 2 or more parts of 2 or more "
         "elements")
{
    typedef double T;
    Shape s = genShape(g, 1 + g.below(4), 100);
    Tensor<T> a = gen<T>(g, s);
    std::vector<T> w = a.data;
    int part = 1, n = a.size();
    var r, o;
    Tensor<T> t = gen<T>(g, s);
    bool out = g.flip();
    seen = Seen();
    switch (g.below(3))
    {
    case 0:
    {
        int k = 1 + g.below((int)s.size());
        Shape ps(s.end() - k, s.end());
        part = product(ps);
        Tensor<T> b = gen<T>(g, s);
        g.trace << "pairwise last " << k << " of " << a << " " << b;
        for (int i=0; i<n; i++)
            w[i] = a.data[i] * 3 - b.data[i] + i % part;
        Pairwise f(k);
        if (out)
            f(a.v, b.v, t.v);
        else
            r = f(a.v, b.v);
        CHECK(b, "right operand");
        EXPECT_EQ((int)seen.in.size(), 2 * n / part, "number of calls");
        for (size_t i=0; i<seen.shape.size(); i++)
            EXPECT(seen.shape[i] == ps, "shape " << str(seen.shape[i]));
        break;
    }
    case 1:
    {
        int k = 1 + g.below((int)s.size());
        Shape ps(s.end() - k, s.end());
        part = product(ps);
        if (part == 1 && k == 1)
            return; // Like a scalar
        Tensor<T> b = gen<T>(g, ps);
        g.trace << "repeated " << a << " " << b;
        for (int i=0; i<n; i++)
            w[i] = a.data[i] * 3 - b.data[i % part] + i % part;
        Repeated f;
        if (out)
            f(a.v, b.v, t.v);
        else
            r = f(a.v, b.v);
        CHECK(b, "right operand");
        break;
    }
    case 2:
    {
        int k = 1 + g.below((int)s.size());
        Shape ps(s.end() - k, s.end());
        part = product(ps);
        if (part == 1)
            return; // See sub-arrays of one below
        int m = 2 + g.below(3);
        var all;
        std::vector<Tensor<T>> x;
        for (int i=0; i<m; i++)
        {
            x.push_back(i ? gen<T>(g, s) : a);
            all[i] = x[i].v;
        }
        g.trace << "total of " << m << " over last " << k << " of " << a;
        for (int i=0; i<n; i++)
        {
            w[i] = i % part;
            for (int j=0; j<m; j++)
                w[i] += x[j].data[i] * (j + 1);
        }
        Total f(k);
        if (out)
            f(all, t.v);
        else
            r = f(all);
        for (auto& y : x)
            CHECK(y, "operand");
        break;
    }
    }
    CHECK(a, "left operand");
    if (out)
    {
        t.set(w);
        CHECK(t, "output");
    }
    else
    {
        Tensor<T> u;
        u.v = r;
        u.shape = s;
        u.data = w;
        CHECK(u, "result");
    }
    g.nontrivial(part > 1 && n > part);
}

PROPERTY(C29, nary, 20000,
         "2 to 5 operands with the same leading dimensions and parts of "
         "different shape and size, put end to end in a given output by a "
         "functor defined here; each part is passed once, in order, with its "
         "shape; operands of another type, or an output with too few "
         "dimensions, or no output, are refused; non-trivial if 3 or more "
         "operands and 2 or more parts of different size")
{
    typedef double T;
    int nc = g.weighted({1, 4, 3, 1});
    Shape c;
    for (int i=0; i<nc; i++)
        c.push_back(1 + g.sized(4));
    int parts = product(c);
    int m = 2 + g.below(4);
    std::vector<Tensor<T>> x;
    std::vector<Shape> own;
    int total = 0;
    bool differ = false;
    var all;
    for (int j=0; j<m; j++)
    {
        Shape p;
        int d = 1 + g.below(2);
        for (int i=0; i<d; i++)
            p.push_back(1 + g.sized(4));
        if (product(p) == 1)
            p.back() = 2;
        own.push_back(p);
        total += product(p);
        differ = differ || product(p) != product(own[0]);
        Shape s = c;
        s.insert(s.end(), p.begin(), p.end());
        x.push_back(gen<T>(g, s));
        all[j] = x[j].v;
        g.trace << x[j] << " ";
    }
    Shape so = c;
    so.push_back(total);
    Tensor<T> t = gen<T>(g, so);
    std::vector<T> w;
    for (int i=0; i<parts; i++)
        for (int j=0; j<m; j++)
        {
            int n = product(own[j]);
            w.insert(w.end(), x[j].data.begin() + i*n,
                     x[j].data.begin() + (i+1)*n);
        }
    Joined f(1);
    Joined deep((int)so.size() + 1);
    EXPECT(throws([&] { deep(all, t.v); }), "too few dimensions accepted");
    EXPECT(throws([&] { f(all); }), "no way to allocate the output");
    EXPECT(throws([&] { f(); }), "no way to allocate the output of nothing");
    CHECK(t, "output of what was refused");
    seen = Seen();
    var r = f(all, t.v);
    t.set(w);
    CHECK(t, "output");
    EXPECT(r.size() == t.v.size(), "returned");
    for (auto& y : x)
        CHECK(y, "operand");
    EXPECT_EQ((int)seen.in.size(), parts * m, "number of parts");
    for (int i=0; i<parts; i++)
        for (int j=0; j<m; j++)
        {
            int n = product(own[j]);
            EXPECT(seen.shape[i*m+j] == own[j],
                   "shape " << str(seen.shape[i*m+j]));
            EXPECT(seen.in[i*m+j]
                   == std::vector<double>(x[j].data.begin() + i*n,
                                          x[j].data.begin() + (i+1)*n),
                   "part " << i << " of " << j);
        }
    // All of one type
    all[g.below(m-1) + 1] = var({2, 2}, 1.5f);
    EXPECT(throws([&] { f(all, t.v); }), "another type accepted");
    CHECK(t, "output of what was refused");
    g.nontrivial(m > 2 && parts > 1 && differ);
}
