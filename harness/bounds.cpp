/* Just inside and outside the bounds, and text as a sequence of bytes */
#include "history.h"
#include <climits>

using namespace history;

namespace
{
    /** Whether f throws, as something derived from std::exception */
    template<class F> bool throws(F f)
    {
        try { f(); }
        catch (std::exception&) { return true; }
        return false;
    }

    /** A position at or around an end of something of size n, or far away */
    int position(pbt::Gen& g, int n)
    {
        switch (g.below(9))
        {
        case 0: return 0;
        case 1: return n - 1;
        case 2: return n;
        case 3: return n + 1 + g.below(3);
        case 4: return -1 - g.below(3);
        case 5: return n + g.sized(100000);
        case 6: return INT_MAX - g.below(n + 2);
        case 7: return INT_MIN + g.below(3);
        default: return g.below(n ? n : 1);
        }
    }

    /** Something with a history of growing and shrinking */
    void grow(pbt::Gen& g, Val& m, var& v, int ops)
    {
        int type = World::elemType(m);
        for (int i=0; i<ops; i++)
        {
            int n = sizeOf(m);
            if (isMap(m))
            {
                if (g.rare(3) && n)
                {
                    int k = g.below(n);
                    World::remove(m, k);
                    v.remove(k);
                    continue;
                }
                Val k = g.flip() ? mInt(g.below(20)) : mStr(genText(g, 3));
                Val x = genSmall(g, TYPE_INT);
                World::key(m, k) = x;
                v[build(k)] = build(x);
                continue;
            }
            Val x = dense(type) ? genSmall(g, type)
                : g.flip() ? mStr(genText(g, 4)) : genSmall(g, TYPE_INT);
            int k = g.below(n + 1);
            switch (g.below(8))
            {
            case 0: case 1: case 2:
                World::push(m, x); v.push(build(x));
                break;
            case 3:
                if (n && m.isArr()) { World::pop(m); v.pop(); }
                break;
            case 4:
                if (n && m.isArr()) { World::remove(m, k%n); v.remove(k%n); }
                break;
            case 5:
                if (m.isArr()) { World::insert(m, x, k); v.insert(build(x), k); }
                break;
            case 6:
                World::resize(m, k); v.resize(k);
                break;
            case 7:
                if (m.isArr()) { World::unshift(m, x); v.unshift(build(x)); }
                break;
            }
        }
    }
}

PROPERTY(C20, bounds, 25000,
         "arrays of every type, strings, maps, scalars, nil and views, with a "
         "history of growing and shrinking; up to 12 times one of 24 "
         "accessors and modifiers with an index, dimension, key, shape or "
         "offset at an end, just outside or far away; what is outside must "
         "throw and change nothing, what is inside must not; non-trivial if "
         "something is refused")
{
    Val base;
    int kind = g.below(12);
    if (kind < 7)
        base = mArr(g.pick({TYPE_INT, TYPE_DOUBLE, TYPE_CHAR, TYPE_LONG,
                        TYPE_FLOAT, TYPE_CFLOAT, TYPE_CDOUBLE}));
    else if (kind == 7)
        base = mStr(genText(g, 12));
    else if (kind == 8)
        base = mArr(TYPE_VAR);
    else if (kind == 9)
        base = mArr(TYPE_PAIR);
    else if (kind == 10)
        base = genSmall(g, genScalarType(g));
    if (base.isArr() && kind != 7)
        for (int i=g.sized(12); i && kind != 9; i--)
            base.p->s->e.push_back(
                kind < 7 ? genSmall(g, base.p->type())
                : genSmall(g, TYPE_INT));
    var vb = build(base);
    if (base.isArr())
        grow(g, base, vb, g.sized(12));
    std::string s = differs(vb, base);
    EXPECT(s.empty(), "as grown " << s);
    g.trace << show(base);

    // Perhaps as a view, or a view of the view
    Val m = base;
    var v = vb;
    bool map = isMap(base);
    for (int k = base.isArr() && !map ? g.below(3) : 0; k; k--)
    {
        std::vector<int> shape;
        int off = m.p->view ? m.p->off : 0;
        int room = (int)base.p->s->e.size() - off;
        int at = room ? g.below(room) : 0;
        room -= at;
        int size = 1;
        for (int d=1+g.below(3); d; d--)
        {
            int e = room ? 1 + g.below(std::max(1, room / size)) : 0;
            shape.push_back(e);
            size *= e ? e : 1;
        }
        // See model: a view of one var can not be told from the var
        if (base.p->type() == TYPE_VAR && size < 2)
            break;
        var sh;
        for (int e : shape)
            sh.push(e);
        sh.array();
        v.clear(); // It would write through a view
        v = vb.view(sh, off + at);
        m = Val();
        m.p = std::make_shared<Obj>();
        m.p->s = base.p->s;
        m.p->view = true;
        m.p->off = off + at;
        m.p->shape = shape;
        g.trace << " " << show(m);
    }
    bool isView = m.isArr() && m.p->view;
    int probes = 1 + g.below(12);
    bool any = false;
    for (int k=0; k<probes; k++)
    {
        int n = sizeOf(m);
        int dim = m.isArr() ? m.p->dim() : 1;
        int i = position(g, n);
        bool in = i >= 0 && i < n;
        const var& cv = v;
        bool want = false, got = false;
        int op = g.below(24);
        g.trace << "; " << op << "(" << i << ")";
        switch (op)
        {
        case 0:
        case 1:
        {
            // By index, constant
            want = !in;
            var r;
            got = throws([&]() { r = op ? cv[i] : v.at(i); });
            if (!got && !want)
            {
                std::string s = differs(
                    r, m.scalar() ? m : World::value(m.p->at(i)));
                EXPECT(s.empty(), "element " << i << " " << s);
            }
            break;
        }
        case 2:
            // Negative, or too large for a view which can not grow
            if (i >= n && !isView)
                continue;
            if (m.scalar())
                i = std::min(i, -1); // It becomes an array
            if (map && in)
                continue;
            i = std::min(i, INT_MAX - 1); // The size has to be an int
            want = i < 0 || i >= n;
            got = throws([&]() { v[i]; });
            break;
        case 3:
            want = n < 1;
            got = throws([&]() { v.top(); });
            break;
        case 4:
            // What is popped is the last
            if (n > 0 && !isView)
                continue;
            want = true;
            got = throws([&]() { v.pop(); });
            break;
        case 5:
            if (!m.isArr() || (n > 0 && !isView))
                continue;
            want = true;
            got = throws([&]() { v.shift(); });
            break;
        case 6:
        case 7:
        {
            // Either on a copy
            var c = isView ? v : v.copy();
            Val x = op == 6 ? Val() : m.isArr() && dense(m.p->type())
                ? genSmall(g, m.p->type()) : genSmall(g, TYPE_INT);
            if (map && op == 7)
                continue;
            want = isView || (op == 6 ? !in : i < 0 || i > n);
            got = throws([&]() {
                if (op == 6)
                    c.remove(i);
                else
                    c.insert(build(x), i);
            });
            if (!isView && want)
            {
                std::string s = differs(c, World::shallow(m));
                EXPECT(s.empty(), "the copy " << s);
            }
            if (!want && m.isArr())
                EXPECT_EQ(c.size(), n + (op == 6 ? -1 : 1), "size");
            break;
        }
        case 8:
        case 9:
        {
            // One of the indices out of bounds, or none
            int j[3] = {0, 0, 0};
            int bad = g.below(dim + 1);
            bool out = false;
            for (int d=0; d<dim; d++)
            {
                int e = m.isArr() ? m.p->dimSize(d) : n;
                j[d] = bad == d ? position(g, e) : e ? g.below(e) : 0;
                out = out || j[d] < 0 || j[d] >= e;
                g.trace << " " << j[d];
            }
            want = out;
            if (m.isNil())
                want = true;
            got = throws([&]() {
                switch (dim)
                {
                case 1: v(j[0]); break;
                case 2: v(j[0], j[1]); break;
                default: v(j[0], j[1], j[2]); break;
                }
            });
            break;
        }
        case 10:
        {
            // Check without access
            int d = g.below(dim);
            int e = m.isArr() ? m.p->dimSize(d) : n;
            int j = position(g, e);
            g.trace << " " << d << " " << j;
            want = j < 0 || j >= e;
            got = throws([&]() { v.bounds(d, j); });
            break;
        }
        case 11:
        {
            int d = g.flip() ? g.range(-dim, dim - 1)
                : dim + g.below(3);
            if (g.rare(4) && isView)
                d = -dim - 1 - g.below(2);
            g.trace << " shape " << d;
            want = d < -dim || d >= dim;
            int r = -1;
            got = throws([&]() { r = v.shape(d); });
            if (!want && !got)
            {
                int a = d < 0 ? d + dim : d;
                EXPECT_EQ(r, m.isArr() ? m.p->dimSize(a) : n, "shape");
            }
            break;
        }
        case 12:
        {
            int d = g.flip() ? g.below(dim) : dim + g.below(3);
            if (g.rare(4) && isView)
                d = -1 - g.below(3);
            g.trace << " stride " << d;
            want = d < 0 || d >= dim;
            got = throws([&]() { v.stride(d); });
            break;
        }
        case 13:
        {
            want = !map || !in;
            var r;
            got = throws([&]() { r = v.key(i); });
            if (!want && !got)
            {
                std::string s = differs(r, m.p->s->k[i]);
                EXPECT(s.empty(), "key " << s);
            }
            break;
        }
        case 14:
        {
            var key = build(mStr(genText(g, 3)));
            want = !map;
            got = throws([&]() { cv.at(key); });
            break;
        }
        case 15:
        {
            if (map)
                continue;
            int size = 1 + g.below(4);
            int all = m.isArr() ? (int)m.p->s->e.size() : 0;
            int off = isView ? m.p->off : 0;
            int room = all - off - size;
            int o = position(g, room + 1);
            g.trace << " view " << size << " @" << o;
            want = !m.isArr() || o < -off || o > room;
            var r;
            got = throws([&]() { r = v.view({size}, o); });
            if (!want && !got)
                EXPECT_EQ(r.offset(), off + o, "offset of view");
            break;
        }
        case 16:
        {
            if (!isView)
                continue;
            int d = g.range(-1, dim);
            int size = 1;
            for (int a=dim-1; a>=0 && a>=dim-d; a--)
                size *= m.p->shape[a];
            int room = (int)m.p->s->e.size() - m.p->off - size;
            int o = position(g, room + 1);
            g.trace << " subview " << d << " @" << o;
            want = d < 1 || o < -m.p->off || o > room;
            // Something bitten off; ind is not negative
            if (o < 0)
                continue;
            got = throws([&]() { v.subview(d, o); });
            break;
        }
        case 17:
        case 18:
        {
            if (map)
                continue;
            int room = isView ? (int)m.p->s->e.size() - n : 0;
            int to = position(g, room + 1);
            want = !isView || to < 0 || to > room;
            int by = to;
            if (op == 18 && isView)
            {
                // Perhaps too far to say
                if ((long)to - m.p->off < INT_MIN)
                    continue;
                by = to - m.p->off;
            }
            g.trace << (op == 17 ? " offset " : " advance ") << by;
            got = throws([&]() {
                if (op == 17)
                    v.offset(to);
                else
                    v.advance(by);
            });
            if (!want)
                m.p->off = to;
            break;
        }
        case 19:
            // Views can not change size
            if (!isView)
                continue;
            want = true;
            got = throws([&]() {
                var x = build(genSmall(g, dense(m.p->type()) ? m.p->type()
                                       : (int)TYPE_INT));
                switch (g.below(6))
                {
                case 0: v.push(x); break;
                case 1: v.unshift(x); break;
                case 2: v.append(x); break;
                case 3: v.resize(n + 1); break;
                case 4: v.resize(n / 2); break;
                case 5: v.presize(n + 20); break;
                }
            });
            break;
        case 20:
        {
            // Through an element, as a reference
            if (!m.isArr() || m.p->type() != TYPE_VAR)
                continue;
            bool dim1 = g.flip();
            want = !in;
            got = throws([&]() {
                var r = v.at(i);
                if (dim1)
                    r.at(0);
                else
                    r.size();
            });
            if (in && dim1)
                want = sizeOf(m.p->at(i)) == 0;
            break;
        }
        case 21:
        {
            // As a dictionary or an array, by what is no index
            if (map || !m.isArr())
                continue;
            var key = build(mStr(std::string(1 + g.below(3),
                                             (char)('a' + g.below(26)))));
            want = true;
            got = throws([&]() { v[key]; });
            break;
        }
        case 22:
        {
            // By an index as a var
            if (map || !m.isArr())
                continue;
            if (i >= n && !isView)
                continue;
            want = !in;
            i = std::min(i, INT_MAX - 1);
            var j = g.flip() ? var(i) : var((long)i);
            got = throws([&]() { v[j]; });
            break;
        }
        case 23:
        {
            // Copying what doesn't fit to elements
            if (!m.isArr() || !dense(m.p->type()) || !n)
                continue;
            var two = build(mArr(TYPE_INT));
            two.push(1);
            two.push(2);
            want = true;
            int at = g.below(n);
            got = throws([&]() { v[at] = two; });
            break;
        }
        }
        any = any || want;
        EXPECT_EQ(got, want, "refused");
        std::string s = differs(v, m);
        EXPECT(s.empty(), "afterwards " << s);
        s = differs(vb, base);
        EXPECT(s.empty(), "the array afterwards " << s);
    }
    g.nontrivial(any);
    g.label(any && isView, "refused of a view");
    g.label(isView, "a view");
    g.label(map, "a map");
}

// --- Text

namespace
{
    typedef std::shared_ptr<std::string> Str;

    /** Bytes; with zeros if they may be there */
    std::string bytes(pbt::Gen& g, int max, bool zeros)
    {
        std::string s = genText(g, max);
        if (zeros && g.rare(4))
            for (auto& c : s)
                if (g.rare(4))
                    c = 0;
        return s;
    }

    char byte(pbt::Gen& g)
    {
        return (char)(g.rare(6) ? g.below(256) : 'a' + g.below(26));
    }

    std::string wrong(const var& v, const std::string& s)
    {
        std::ostringstream o;
        int n = (int)s.size();
        if (v.type() != TYPE_ARRAY || v.atype() != TYPE_CHAR)
            o << "not a string";
        else if (v.size() != n)
            o << "size is " << v.size();
        else if (std::memcmp(v.str(), s.data(), n))
            o << "bytes are " << pbt::quote(std::string(v.str(), n));
        else if (v.str()[n])
            o << "no terminator";
        else if (std::strlen(v.str()) != std::strlen(s.c_str()))
            o << "as a C string it is " << pbt::quote(v.str());
        else
        {
            var w(n, s.data());
            if (!(v == w) || v != w || !(w == v) || v < w || v > w)
                o << "does not compare equal";
            for (int i=0; i<n; i++)
                if (v.at(i).get<char>() != s[i])
                    o << "element " << i;
        }
        if (o.str().empty())
            return "";
        return o.str() + ", expected " + pbt::quote(s);
    }
}

PROPERTY(C04, text, 40000,
         "histories of up to 40 operations on 5 strings, 2 of them variables, "
         "2 elements of an array and 1 of a map: construction from C strings "
         "and counted bytes, aliasing, copying, append in its three forms, of "
         "itself and parts of itself, "
         "push, insert, unshift, remove, pop, shift, assignment of a byte, "
         "resizing, concatenation, printing and comparison, against "
         "std::string; size, bytes, terminator, C string, elements and "
         "comparison of each after every operation; non-trivial if a string "
         "with two names is changed or one exceeds 16 bytes")
{
    var v[2], a, h;
    Str m[5];
    bool zeros = g.rare(3);
    int big = g.rare(40) ? 400 : 20;

    // Elements are reached anew each time
    auto with = [&](int i, std::function<void(var&)> f) {
        if (i < 2)
            f(v[i]);
        else if (i < 4)
        {
            var r = a[i-2];
            f(r);
        }
        else
        {
            var r = h["text"];
            f(r);
        }
    };
    auto read = [&](int i) -> var {
        var r;
        if (i < 2)
            r = v[i];
        else if (i < 4)
            r = a.at(i-2);
        else
            r = h.at("text");
        return r;
    };
    auto name = [](int i) {
        static const char* s[] = {"x", "y", "a[0]", "a[1]", "h[text]"};
        return s[i];
    };

    a.push("");
    a.push("");
    h["text"] = "";
    v[0] = "";
    v[1] = "";
    for (int i=0; i<5; i++)
        m[i] = std::make_shared<std::string>();

    bool shared = false, longer = false;
    int ops = 1 + g.sized(40);
    for (int k=0; k<ops; k++)
    {
        int i = g.below(5);
        int op = g.weighted({4, 4, 4, 3, 5, 5, 5, 4, 5, 4, 3, 4, 3, 3, 6, 3,
                    3, 3, 3, 2, 2, 3});
        int n = (int)m[i]->size();
        int at = g.below(n + 1);
        std::string s = bytes(g, big, zeros);
        if (n > 3000)
            op = 0;
        char c = byte(g);
        int j = g.below(5);
        // With no zeros it can be a C string
        std::string z = s.substr(0, s.find('\0'));
        Str before = m[i];
        g.trace << name(i);
        if (op > 3 && m[i].use_count() > 2)
            shared = true;
        switch (op)
        {
        case 0:
            g.trace << " = " << pbt::quote(z);
            m[i] = std::make_shared<std::string>(z);
            with(i, [&](var& r) { r = z.c_str(); });
            break;
        case 1:
            g.trace << " = bytes " << pbt::quote(s);
            m[i] = std::make_shared<std::string>(s);
            with(i, [&](var& r) { r = var((int)s.size(), s.data()); });
            break;
        case 2:
            g.trace << " = " << name(j);
            m[i] = m[j];
            {
                var x = read(j);
                with(i, [&](var& r) { r = x; });
            }
            break;
        case 3:
            g.trace << " = " << name(j) << ".copy()";
            m[i] = std::make_shared<std::string>(*m[j]);
            {
                var x = read(j).copy();
                with(i, [&](var& r) { r = x; });
            }
            break;
        case 4:
            g.trace << ".append(C " << pbt::quote(z) << ")";
            m[i]->append(z);
            with(i, [&](var& r) { r.append(z.c_str()); });
            break;
        case 5:
            g.trace << ".append(bytes " << pbt::quote(s) << ")";
            m[i]->append(s);
            with(i, [&](var& r) { r.append((int)s.size(), s.data()); });
            break;
        case 6:
            g.trace << ".append(" << name(j) << ")";
            m[i]->append(std::string(*m[j]));
            {
                var x = read(j);
                with(i, [&](var& r) { r.append(x); });
            }
            break;
        case 7:
            g.trace << ".push(" << pbt::quote(std::string(1, c)) << ")";
            m[i]->push_back(c);
            with(i, [&](var& r) { r.push(c); });
            break;
        case 8:
            g.trace << ".insert(" << pbt::quote(s) << ", " << at << ")";
            m[i]->insert(at, s);
            with(i, [&](var& r) { r.insert(var((int)s.size(), s.data()), at); });
            break;
        case 9:
            g.trace << ".insert(" << pbt::quote(std::string(1, c)) << ", "
                    << at << ")";
            m[i]->insert(m[i]->begin()+at, c);
            with(i, [&](var& r) { r.insert(c, at); });
            break;
        case 10:
            g.trace << ".unshift(" << pbt::quote(std::string(1, c)) << ")";
            m[i]->insert(m[i]->begin(), c);
            with(i, [&](var& r) { r.unshift(c); });
            break;
        case 11:
        case 12:
        case 13:
        {
            if (!n)
                break;
            int p = op == 11 ? g.below(n) : op == 12 ? n-1 : 0;
            char was = (*m[i])[p];
            m[i]->erase(p, 1);
            with(i, [&](var& r) {
                var x = op == 11 ? r.remove(p) : op == 12 ? r.pop() : r.shift();
                g.trace << (op == 11 ? ".remove(" : op == 12 ? ".pop("
                            : ".shift(") << p << ")";
                EXPECT_EQ((int)x.get<char>(), (int)was, "what was removed");
            });
            break;
        }
        case 14:
            if (!n)
                break;
            at = g.below(n);
            g.trace << "[" << at << "] = " << pbt::quote(std::string(1, c));
            (*m[i])[at] = c;
            with(i, [&](var& r) { r[at] = c; });
            break;
        case 15:
            g.trace << ".resize(" << at << ")";
            m[i]->resize(at);
            with(i, [&](var& r) { r.resize(at); });
            break;
        case 16:
        {
            // Growing leaves what's new to be set
            int to = n + g.sized(big);
            g.trace << ".resize(" << to << ") and set";
            m[i]->resize(to, c);
            with(i, [&](var& r) {
                r.resize(to);
                for (int p=n; p<to; p++)
                    r[p] = c;
            });
            break;
        }
        case 17:
        {
            // Printed along with numbers
            int x = g.range(-1000, 1000);
            g.trace << " = printed " << pbt::quote(z) << " " << x;
            m[i] = std::make_shared<std::string>(z + std::to_string(x));
            varstream o;
            o << z.c_str() << x;
            var t = var(o);
            EXPECT_EQ(std::string(o.str()), *m[i], "stream");
            with(i, [&](var& r) { r = t; });
            break;
        }
        case 18:
            // Comma appends
            g.trace << ", " << pbt::quote(z) << ", "
                    << pbt::quote(std::string(1, c));
            m[i]->append(z);
            m[i]->push_back(c);
            with(i, [&](var& r) { r, z.c_str(), c; });
            break;
        case 21:
        {
            // Part of itself, which moves as it grows
            int len = g.below(n - std::min(at, n) + 1);
            bool c = g.rare(3) && m[i]->find('\0') == std::string::npos;
            if (c)
                len = n - at;
            g.trace << ".append(own " << at << ", " << len << ")";
            m[i]->append(std::string(*m[i], at, len));
            with(i, [&](var& r) {
                if (c)
                    r.append(r.str() + at);
                else
                    r.append(len, r.str() + at);
            });
            break;
        }
        case 19:
        {
            // Room does not show
            int room = n + g.below(100);
            g.trace << ".presize(" << room << ")";
            with(i, [&](var& r) { r.presize(room); });
            break;
        }
        case 20:
        {
            // Cleared under one name only, and begun again
            g.trace << ".clear().append(" << pbt::quote(z) << ")";
            m[i] = std::make_shared<std::string>(z);
            with(i, [&](var& r) {
                r.clear();
                EXPECT(!r.defined(), "cleared");
                r.append(z.c_str());
            });
            break;
        }
        }
        g.trace << "; ";
        longer = longer || m[i]->size() > 16;
        for (int q=0; q<5; q++)
        {
            std::string w = wrong(read(q), *m[q]);
            EXPECT(w.empty(), name(q) << ": " << w);
        }
        // How the rest compares
        var x = read(i), y = read(j);
        EXPECT_EQ(x == y, *m[i] == *m[j], "==");
        EXPECT_EQ(x < y, *m[i] < *m[j], "<");
        EXPECT_EQ(x.is(y), i == j || m[i] == m[j], "sharing");
        if (m[i]->find('\0') == std::string::npos)
        {
            EXPECT(x == m[i]->c_str(), "== C string");
        }
    }
    EXPECT_EQ(a.size(), 2, "size of array");
    EXPECT_EQ(h.size(), 1, "size of map");
    g.nontrivial(shared || longer);
    g.label(shared, "changes a string with two names");
    g.label(longer, "more than 16 bytes");
    g.label(zeros, "with zero bytes");
}
