/* Histories of the var type: ownership, sequences, maps, nesting */
#include "history.h"
#include <map>

using namespace history;

static Config mix(std::initializer_list<std::pair<Op, int>> w)
{
    Config c;
    for (auto& p : w)
        c.weight[p.first] = p.second;
    return c;
}

/** Every kind of operation */
static void everything(pbt::Gen& g)
{
    Config c = mix({
            {ASSIGN, 4}, {ALIAS, 4}, {ELEMENT, 4}, {COPY, 2}, {SETINDEX, 4}, {SETKEY, 4},
            {PUSH, 4}, {POP, 2}, {SHIFT, 2}, {UNSHIFT, 2}, {INSERT, 3},
            {REMOVE, 2}, {RESIZE, 2}, {CLEAR, 1}, {APPEND, 2}, {APPENDRAW, 2},
            {ARRAY, 1}, {PRESIZE, 1}, {VIEW, 4}, {OFFSET, 2}, {VIEWSET, 2},
            {TAKE, 3}, {INDEX, 2}, {TOPSET, 1}, {SUBVIEW, 2}});
    c.pool = 4;
    c.maxOps = 60;
    World w(g, c);
    w.run();
    g.nontrivial(w.mutations > 0 || w.throws > 0);
    g.label(w.mutations > 0, "changes a shared array");
    g.label(w.throws > 0, "throws");
    g.label(w.nested > 0, "nested target");
    g.label(w.grown > 0, "more than 8 elements");
}

/** Mostly naming, copying and changing under one name */
static void naming(pbt::Gen& g)
{
    Config c = mix({
            {ASSIGN, 2}, {ALIAS, 8}, {ELEMENT, 6}, {COPY, 6}, {SETINDEX, 6}, {SETKEY, 5},
            {PUSH, 4}, {POP, 3}, {SHIFT, 2}, {UNSHIFT, 2}, {INSERT, 2},
            {REMOVE, 2}, {RESIZE, 2}, {CLEAR, 2}, {APPEND, 1}, {TAKE, 3},
            {TOPSET, 2}});
    c.pool = 5;
    World w(g, c);
    w.run();
    g.nontrivial(w.mutations > 0);
    g.label(w.mutations > 2, "changes shared arrays three times or more");
    g.label(w.nested > 0, "nested target");
}

/** Mostly views */
static void viewing(pbt::Gen& g)
{
    Config c = mix({
            {VIEW, 10}, {OFFSET, 6}, {VIEWSET, 10}, {SUBVIEW, 6},
            {SETINDEX, 3}, {TAKE, 2}, {ALIAS, 2}, {ELEMENT, 2}, {COPY, 1}, {PUSH, 2}});
    c.pool = 3;
    c.maxPath = 0;
    c.types = {TYPE_DOUBLE, TYPE_FLOAT, TYPE_INT, TYPE_CHAR, TYPE_LONG,
               TYPE_CFLOAT, TYPE_CDOUBLE};
    World w(g, c);
    w.run();
    g.nontrivial(w.mutations > 0);
    g.label(w.throws > 0, "throws");
}

/** Mostly growth from nothing, a scalar or an array */
static void growing(pbt::Gen& g)
{
    Config c = mix({
            {ASSIGN, 3}, {SETINDEX, 8}, {PUSH, 8}, {RESIZE, 3}, {TOPSET, 2},
            {PRESIZE, 1}, {ARRAY, 2}, {APPEND, 2}, {APPENDRAW, 2},
            {UNSHIFT, 2}, {TAKE, 1}, {CLEAR, 2}});
    c.pool = 3;
    c.maxOps = 30;
    c.maxGrow = 20;
    c.maxPath = 1;
    World w(g, c);
    w.run();
    g.nontrivial(w.grown > 0);
    g.label(w.throws > 0, "throws");
    g.label(w.nested > 0, "nested target");
}

#define EVERYTHING "histories of up to 60 operations of every kind, valid or " \
    "not, on a pool of 4 vars"
#define NAMING "histories of up to 40 operations on a pool of 5 vars dominated " \
    "by assignment, copy() and mutation through either name, nested or not"
#define VIEWING "histories of up to 40 operations making views of up to 4 " \
    "dimensions, views of views, subviews and moving offsets, in and out of " \
    "bounds, and reading and writing through them"
#define GROWING "histories of up to 30 operations growing undefined vars, " \
    "scalars and arrays by indexing, pushing, resizing and appending past " \
    "the end"

PROPERTY(C01, history, 30000,
         EVERYTHING "; every var compared with the model after each; "
         "non-trivial if it changes a shared array or an operation throws")
{
    everything(g);
}

PROPERTY(C01, names, 40000,
         NAMING "; after each operation every var is compared with the model "
         "and is() with sharing in the model; non-trivial if it changes an "
         "array that has more than one name")
{
    naming(g);
}

PROPERTY(C02, history, 30000,
         EVERYTHING ", under address and undefined behaviour sanitizers with "
         "allocation accounting; non-trivial if it changes a shared array or "
         "an operation throws")
{
    everything(g);
}

PROPERTY(C02, sharing, 15000,
         NAMING ", under sanitizers with allocation accounting; non-trivial "
         "if it changes an array that has more than one name")
{
    naming(g);
}

PROPERTY(C02, views, 15000,
         VIEWING ", under sanitizers with allocation accounting; non-trivial "
         "if something shared is changed")
{
    viewing(g);
}

PROPERTY(C02, growing, 15000,
         GROWING ", under sanitizers with allocation accounting; non-trivial "
         "if an array exceeds 8 elements")
{
    growing(g);
}

/** An array of one type as a sequence */
static void sequence(pbt::Gen& g, int type)
{
    Config c = mix({
            {SETINDEX, 4}, {PUSH, 10}, {POP, 3}, {SHIFT, 3}, {UNSHIFT, 4},
            {INSERT, 5}, {REMOVE, 4}, {RESIZE, 2}, {APPEND, 3},
            {APPENDRAW, 2}, {PRESIZE, 1}, {TAKE, 1}, {INDEX, 2}, {TOPSET, 2},
            {ALIAS, 1}, {COPY, 1}, {CLEAR, g.rare(3) ? 1 : 0}});
    c.pool = 2;
    c.maxOps = 80;
    c.maxPath = 0;
    c.types = {type};
    World w(g, c);
    w.run();
    g.nontrivial(w.grown > 0);
    g.label(w.throws > 0, "throws");
    g.label(w.grown > 0, std::string("more than 8 elements of type ").append(
                libube::typeStr(type)).c_str());
}

PROPERTY(C03, history, 20000,
         "histories of up to 80 push, pop, shift, unshift, insert, remove, "
         "append, resize, presize, index and top operations on 2 arrays of "
         "one of the 8 element types; non-trivial if an array exceeds 8 "
         "elements")
{
    sequence(g, g.pick({TYPE_VAR, TYPE_CHAR, TYPE_INT, TYPE_LONG, TYPE_FLOAT,
                    TYPE_DOUBLE, TYPE_CFLOAT, TYPE_CDOUBLE}));
}

PROPERTY(C03, bulk, 3000,
         "an array of one of the 8 element types taken to up to 3000 elements "
         "by runs of push, append, insert, unshift, shift, pop, remove and "
         "resize, compared with the model after each run; non-trivial if it "
         "passes 64 elements")
{
    int type = g.pick({TYPE_INT, TYPE_VAR, TYPE_CHAR, TYPE_LONG, TYPE_FLOAT,
                TYPE_DOUBLE, TYPE_CFLOAT, TYPE_CDOUBLE});
    Val m = mArr(type);
    auto gen = [&]() {
        if (type != TYPE_VAR)
            return genSmall(g, type);
        return g.rare(3) ? mStr(genText(g, 6)) : genSmall(g, TYPE_INT);
    };
    auto& e = m.p->s->e;
    e.push_back(gen());
    var v = build(m);
    int runs = 1 + g.below(8);
    size_t peak = 0;
    for (int r=0; r<runs; r++)
    {
        int op = g.below(9);
        // Sizes near powers of two matter
        int n = g.rare(2) ? (1 << g.below(9)) + g.range(-1, 1) : g.sized(400);
        g.trace << "+- u i a u s p r z"[op*2 > 16 ? 16 : op*2] << op << "x"
                << n << " ";
        Val y = gen();
        Val z = gen();
        var vy = build(y), vz = build(z);
        for (int k=0; k<n; k++)
        {
            Val& q = (k & 1) ? z : y;
            var& vq = (k & 1) ? vz : vy;
            int at = (k * 7) % ((int)e.size() + 1);
            if (op >= 5 && e.size() < 2)
                break;
            if (op == 7 && at == (int)e.size())
                at = 0;
            if ((op == 2 || op == 3) && k > 150)
                break;
            switch (op)
            {
            case 0: case 1: e.push_back(q); v.push(vq); break;
            case 2: e.insert(e.begin(), q); v.unshift(vq); break;
            case 3:
                e.insert(e.begin()+at, q);
                v.insert(vq, at);
                break;
            case 4: e.push_back(q); v[v.size()] = vq; break;
            case 5: e.erase(e.begin()); v.shift(); break;
            case 6: e.pop_back(); v.pop(); break;
            case 7: e.erase(e.begin()+at); v.remove(at); break;
            case 8:
            {
                // Append itself, insert itself
                if (type == TYPE_VAR || e.size() > 1500)
                    k = n;
                else
                {
                    std::vector<Val> t(e);
                    e.insert(e.begin()+at, t.begin(), t.end());
                    v.insert(v, at);
                    k += 40;
                }
                break;
            }
            }
        }
        if (g.rare(4))
        {
            int k = g.below((int)e.size() + 1);
            e.resize(k);
            v.resize(k);
            g.trace << "resize " << k << " ";
            if (k == 0)
            {
                e.push_back(y);
                v.push(vy);
            }
        }
        peak = std::max(peak, e.size());
        std::string s = differs(v, m);
        if (!s.empty())
            pbt::fail(s.substr(0, 300));
    }
    g.trace << typeStr(type) << " peak " << peak;
    g.nontrivial(peak > 64);
    g.label(peak > 512, "more than 512 elements");
}

PROPERTY(C05, history, 20000,
         "histories of up to 60 operations on 2 maps: storing under new and "
         "existing keys of any type, reading present and absent keys, "
         "positional access, removal; non-trivial if a map exceeds 8 pairs")
{
    Config c = mix({
            {SETKEY, 14}, {INDEX, 6}, {REMOVE, 3}, {TAKE, 1}, {SETINDEX, 2},
            {POP, 1}, {SHIFT, 1}, {TOPSET, 1}, {COPY, 1}, {ALIAS, 1}, {ELEMENT, 1}});
    c.pool = 2;
    c.maxOps = 60;
    c.maxPath = 1;
    c.complex = false;
    c.types = {TYPE_PAIR};
    World w(g, c);
    w.run();
    g.nontrivial(w.grown > 0);
}

PROPERTY(C05, self, 10000,
         "pairs of a map of up to 12 string keys stored under other keys of "
         "the same map, new and old, directly or by way of a value; "
         "non-trivial if the key is new")
{
    std::map<std::string, int> m;
    var v;
    v[nil];
    int n = 1 + g.sized(11);
    for (int i=0; i<n; i++)
    {
        std::string k(1, (char)('a' + g.below(26)));
        m[k] = i;
        v[k.c_str()] = i;
    }
    for (int i=1+g.below(4); i; i--)
    {
        auto it = m.begin();
        std::advance(it, g.below((int)m.size()));
        std::string from = it->first;
        int w = it->second;
        std::string to(1, (char)('a' + g.below(26)));
        bool direct = g.flip();
        g.trace << "m[" << to << "] = " << (direct ? "" : "value of ")
                << "m[" << from << "]; ";
        bool fresh = !m.count(to);
        g.nontrivial(fresh);
        if (direct)
            v[to.c_str()] = v[from.c_str()];
        else
        {
            var x;
            x = v[from.c_str()];
            v[to.c_str()] = x;
        }
        // What position the reference had
        int pos = (int)std::distance(m.begin(), m.find(from));
        m[to] = w;
        EXPECT_EQ(v.size(), (int)m.size(), "size");
        var r = v.at(to.c_str());
        if (direct && fresh && to < from && !(r == w)
            && pbt::known(g, "C05", "map-self"))
        {
            // It's the value of what moved there instead
            auto p = m.begin();
            std::advance(p, pos);
            if (p->first == to)
                EXPECT(!r.defined(), "neither value nor nil");
            else
                EXPECT_EQ(r.get<int>(), p->second, "neither of two values");
            v[to.c_str()] = w;
        }
        int j = 0;
        for (auto& x : m)
        {
            EXPECT_EQ(std::string(v.key(j).str()), x.first, "key");
            EXPECT_EQ(v.at(j++).get<int>(), x.second, "value");
        }
    }
}

PROPERTY(C05, bulk, 2000,
         "a map of up to 700 string and integer keys stored in random order "
         "with repeats, then read back by key and by position against "
         "std::map; non-trivial if it has more than 64 pairs")
{
    struct Less
    {
        bool operator ()(const Val& a, const Val& b) const
        {
            return compare(a, b) < 0;
        }
    };
    std::map<Val, int, Less> m;
    var v;
    int n = 1 + g.sized(700);
    int space = 1 + g.below(n*2);
    int style = g.below(4);
    uint64_t mul = 1 + 2 * (uint64_t)g.below(1 << 20);
    g.trace << n << " stores of " << space << " keys, style " << style
            << ", multiplier " << mul << "; ";
    auto key = [&](uint64_t i) {
        uint64_t k = (i * mul >> 3) % space;
        if (style == 0 || (style == 3 && (k & 1)))
            return mInt((int)k - space/2);
        std::string s = style == 1 ? std::to_string(k) : std::string();
        for (uint64_t j=k; style != 1 && j; j/=5)
            s += (char)(j % 5 == 4 ? 200 : 'a' + j % 5);
        return mStr(s);
    };
    for (int i=0; i<n; i++)
    {
        Val k = key(i);
        m[k] = i;
        v[build(k)] = i;
    }
    EXPECT_EQ(v.size(), (int)m.size(), "size of map");
    int p = 0;
    for (auto& x : m)
    {
        std::string s = differs(v.key(p), x.first);
        EXPECT(s.empty(), "key " << p << " " << s);
        EXPECT_EQ(v.at(p).get<int>(), x.second, "value by position");
        ++p;
    }
    const var& cv = v;
    for (int i=0; i<n; i+=1+n/200)
    {
        Val k = key(i);
        EXPECT_EQ(cv.at(build(k)).get<int>(), m[k], "value by key");
    }
    for (int i=0; i<20; i++)
    {
        Val k = key(g.below(1 << 30));
        var vk = build(k);
        if (g.flip())
            vk = mStr("zz" + std::to_string(i)).p ? build(mStr(
                    "zz" + std::to_string(i))) : vk;
        bool in = g.flip() && m.count(k);
        if (in)
        {
            vk = build(k);
            EXPECT_EQ((bool)v.index(vk), true, "index of present key");
        }
        else if (!m.count(k))
        {
            vk = build(k);
            EXPECT(!cv.at(vk), "absent key");
            EXPECT(!v.index(vk), "index of absent key");
        }
    }
    EXPECT_EQ(v.size(), (int)m.size(), "size after reading");
    g.nontrivial(m.size() > 64);
    g.label(m.size() > 300, "more than 300 pairs");
}

PROPERTY(C08, vivify, 40000,
         "up to 30 writes through paths of up to 5 keys and indices mixed, "
         "creating what does not exist, then reads of existing and missing "
         "paths; the whole tree is compared with the model after each; "
         "non-trivial if a path of 3 or more steps was created")
{
    Val m;
    var v;
    int n = 1 + g.sized(29);
    int deep = 0;
    for (int i=0; i<n; i++)
    {
        // Model the path as it's made
        std::vector<Step> path;
        Val* c = &m;
        int d = g.below(6);
        int made = 0;
        bool read = g.rare(4);
        g.trace << (read ? "read v" : "v");
        bool missing = false;
        for (int j=0; j<d; j++)
        {
            if (!c->isNil() && !isMap(*c)
                && !(c->isArr() && c->p->type() == TYPE_VAR))
                break;
            if (read && c->isNil())
                break;
            Step s;
            s.key = c->isNil() ? g.flip() : isMap(*c);
            if (s.key)
            {
                s.k = g.rare(5) ? mInt(g.below(4))
                    : mStr(std::string(1 + g.below(2), (char)('a'+g.below(4))));
                g.trace << "[" << show(s.k) << "]";
                bool f = false;
                if (!c->isNil())
                {
                    int p = World::find(*c, s.k, f);
                    if (f)
                        c = &c->p->s->e[p];
                }
                if (!f)
                {
                    if (read)
                    {
                        missing = true;
                        path.push_back(s);
                        break;
                    }
                    ++made;
                    c = &World::key(*c, s.k);
                }
            }
            else
            {
                int z = sizeOf(*c);
                s.idx = g.below(read ? (z ? z : 1) : z + 3);
                if (read && z == 0)
                    break;
                g.trace << "[" << s.idx << "]";
                if (s.idx >= z)
                {
                    ++made;
                    World::resize(*c, s.idx+1);
                }
                c = &c->p->s->e[s.idx];
            }
            path.push_back(s);
        }
        if (read)
        {
            // As a temporary each time
            std::function<void(const var&, size_t)> go =
                [&](const var& r, size_t k) {
                if (k == path.size())
                {
                    std::string s = differs(r, missing ? Val() : *c);
                    EXPECT(s.empty(), s);
                    return;
                }
                if (path[k].key)
                    go(r.at(build(path[k].k)), k+1);
                else
                    go(r.at(path[k].idx), k+1);
            };
            g.trace << "; ";
            go(v, 0);
        }
        else
        {
            Val y = g.rare(4) ? genVal(g, 1) : g.flip() ? genScalar(g, TYPE_INT)
                : mStr(genText(g, 6));
            if (path.empty() && i)
            {
                g.trace << "; ";
                continue;
            }
            g.trace << " = " << show(y) << "; ";
            var r = build(y);
            *c = y;
            std::function<void(var&, size_t)> go = [&](var& t, size_t k) {
                if (k == path.size())
                {
                    t = r;
                    return;
                }
                if (path[k].key)
                {
                    var s = t[build(path[k].k)];
                    go(s, k+1);
                }
                else
                {
                    var s = t[path[k].idx];
                    go(s, k+1);
                }
            };
            go(v, 0);
            if (path.size() >= 3 && made)
                ++deep;
        }
        std::string s = differs(v, m);
        EXPECT(s.empty(), s);
    }
    g.nontrivial(deep > 0);
}

PROPERTY(C08, growing, 40000,
         GROWING "; every element, its type, the storage type and the data "
         "pointer are compared with the model; non-trivial if an array "
         "exceeds 8 elements")
{
    growing(g);
}

PROPERTY(C08, history, 15000,
         "histories of up to 40 operations of every kind on elements up to 4 "
         "levels down in nested maps and arrays; non-trivial if some operation "
         "was on an element")
{
    Config c = mix({
            {ASSIGN, 6}, {ALIAS, 3}, {ELEMENT, 3}, {COPY, 2}, {SETINDEX, 4}, {SETKEY, 6},
            {PUSH, 4}, {POP, 2}, {SHIFT, 2}, {UNSHIFT, 2}, {INSERT, 3},
            {REMOVE, 2}, {RESIZE, 2}, {CLEAR, 1}, {APPEND, 3}, {APPENDRAW, 2},
            {ARRAY, 2}, {PRESIZE, 1}, {TAKE, 3}, {INDEX, 3}, {TOPSET, 1}});
    c.pool = 3;
    c.maxPath = 4;
    c.depth = 3;
    c.types = {TYPE_PAIR, TYPE_VAR};
    World w(g, c);
    w.run();
    g.nontrivial(w.nested > 0);
    g.label(w.throws > 0, "throws");
}

PROPERTY(C20, history, 20000,
         VIEWING "; refused exactly when the model says so; shape, stride, "
         "offset and every element compared with the model; non-trivial if "
         "something shared is changed")
{
    viewing(g);
}

PROPERTY(C21, views, 20000,
         VIEWING "; shape, stride, offset and every element of array and "
         "views compared with the model after each; non-trivial if something "
         "shared is changed")
{
    viewing(g);
}

PROPERTY(C21, history, 20000,
         "histories of up to 30 assignments between arrays and views, "
         "overlapping or not, of every element type: an assignment of the "
         "same shape and type to a view writes through it and any other "
         "rebinds; non-trivial if an assignment writes through a view")
{
    Config c = mix({
            {VIEW, 10}, {ALIAS, 10}, {ELEMENT, 3}, {COPY, 4}, {OFFSET, 4}, {SETINDEX, 3},
            {SUBVIEW, 3}, {VIEWSET, 2}});
    c.pool = 4;
    c.maxPath = 0;
    c.maxOps = 30;
    int t = g.pick({TYPE_DOUBLE, TYPE_FLOAT, TYPE_INT, TYPE_CHAR, TYPE_LONG,
                TYPE_CFLOAT, TYPE_CDOUBLE, TYPE_VAR});
    c.types = {t};
    World w(g, c);
    w.run();
    g.nontrivial(w.through > 0);
    g.label(w.through > 0, "writes through a view");
    g.label(w.through > 1, "writes through views twice");
}

PROPERTY(C21, windows, 20000,
         "up to 12 assignments between views of equal or different shape on "
         "one or two arrays of any element type, overlapping or not; every "
         "element of the arrays and the identity of the views compared with "
         "memmove semantics; non-trivial if views of one array overlap")
{
    int type = g.pick({TYPE_DOUBLE, TYPE_FLOAT, TYPE_INT, TYPE_CHAR, TYPE_LONG,
                TYPE_CFLOAT, TYPE_CDOUBLE, TYPE_VAR});
    Val m[2];
    var v[2];
    int n = 4 + g.sized(40);
    for (int i=0; i<2; i++)
    {
        m[i] = mArr(type);
        for (int k=0; k<n; k++)
            m[i].p->s->e.push_back(
                type == TYPE_VAR
                ? (g.flip() ? mStr(genText(g, 4)) : genSmall(g, TYPE_INT))
                : genSmall(g, type));
        v[i] = build(m[i]);
    }
    g.trace << typeStr(type) << " " << n << "; ";
    std::vector<int> shape;
    int size = 1;
    int dim = 1 + g.below(3);
    for (int d=0; d<dim; d++)
    {
        int k = 1 + g.below(std::max(1, std::min(n / size, 9)));
        shape.push_back(k);
        size *= k;
    }
    if (type == TYPE_VAR && size == 1)
    {
        dim = 1;
        size = 2;
        shape = {2};
    }
    bool overlap = false;
    int ops = 1 + g.below(12);
    for (int i=0; i<ops; i++)
    {
        int a = g.below(2), b = g.flip() ? a : g.below(2);
        int oa = g.below(n - size + 1), ob = g.below(n - size + 1);
        bool same = !g.rare(5);
        std::vector<int> sb = shape;
        if (!same)
        {
            // Same size and different shape, or smaller
            if (dim > 1)
                sb = {size};
            else if (size > 2)
                sb = {size - 1};
            else
                same = true;
        }
        var sv, sw;
        for (int x : shape)
            sv.push(x);
        for (int x : sb)
            sw.push(x);
        var x = v[a].view(sv, oa);
        var y = v[b].view(sw, ob);
        bool whole = same && dim == 1 && g.rare(5);
        if (whole)
        {
            // Not a view on the right
            y = var();
            Val t = mArr(type);
            for (int k=0; k<size; k++)
                t.p->s->e.push_back(m[b].p->s->e[ob+k]);
            y = build(t);
        }
        g.trace << "v" << a << "@" << oa << " = v" << b << "@" << ob
                << (whole ? " copied" : "") << (same ? "" : " other shape")
                << " size " << size << "/" << dim << "; ";
        x = y;
        if (same)
        {
            std::vector<Val> t(m[b].p->s->e.begin()+ob,
                               m[b].p->s->e.begin()+ob+size);
            std::copy(t.begin(), t.end(), m[a].p->s->e.begin()+oa);
            EXPECT_EQ(x.offset(), oa, "offset of the view assigned to");
            if (!whole && a == b && oa != ob && std::abs(oa - ob) < size)
                overlap = true;
        }
        else
            EXPECT_EQ(x.offset(), ob, "offset of the view rebound");
        EXPECT_EQ(x.dim(), same ? dim : (int)sb.size(), "dimension");
        for (int k=0; k<2; k++)
        {
            std::string s = differs(v[k], m[k]);
            EXPECT(s.empty(), "array v" << k << " " << s);
        }
    }
    g.nontrivial(overlap);
}

PROPERTY(C20, shapes, 30000,
         "views and tensors of shapes with no dimensions, negative "
         "dimensions or offsets, more elements than there are, or dimensions "
         "whose product overflows; all must be refused, and the array be as "
         "it was, and what fits be accepted; non-trivial if refused")
{
    int type = g.pick({TYPE_DOUBLE, TYPE_FLOAT, TYPE_INT, TYPE_CHAR, TYPE_LONG,
                TYPE_CFLOAT, TYPE_CDOUBLE});
    Val m = mArr(type);
    int n = 1 + g.sized(30);
    for (int i=0; i<n; i++)
        m.p->s->e.push_back(genSmall(g, type));
    var v = build(m);
    int nd = g.below(5);
    long size = 1;
    bool neg = false;
    var shape;
    std::vector<int> sh;
    for (int i=0; i<nd; i++)
    {
        int d = g.rare(8) ? -1 - g.below(3) : g.rare(8) ? 65536
            : g.rare(8) ? 0x7fffffff : 1 + g.below(5);
        neg |= d < 0;
        if (!neg)
            size = std::min(size * d, 0x100000000l);
        sh.push_back(d);
        shape.push(d);
    }
    if (nd)
        shape.array();
    else
        shape = var(0, (const int*)0);
    int off = g.rare(4) ? -1 - g.below(3) : g.below(n+2);
    bool ok = nd && !neg && off >= 0 && size + off <= n;
    for (int d : sh)
        g.trace << d << " ";
    g.trace << "@" << off << " of " << n;
    var w;
    bool list = g.flip();
    bool thrown = false;
    try
    {
        if (!list)
            w = v.view(shape, off);
        else
            switch (nd)
            {
            case 0: w = v.view(std::initializer_list<int>{}, off); break;
            case 1: w = v.view({sh[0]}, off); break;
            case 2: w = v.view({sh[0], sh[1]}, off); break;
            case 3: w = v.view({sh[0], sh[1], sh[2]}, off); break;
            case 4: w = v.view({sh[0], sh[1], sh[2], sh[3]}, off); break;
            }
    }
    catch (std::exception&) { thrown = true; }
    EXPECT_EQ(thrown, !ok, "refused");
    g.nontrivial(thrown);
    if (!thrown)
    {
        EXPECT_EQ((long)w.size(), size, "size");
        EXPECT_EQ(w.dim(), nd, "dimension");
        EXPECT_EQ(w.offset(), off, "offset");
        // Refused moves leave it where it was
        for (int k=0; k<2; k++)
        {
            int to = k ? n - (int)size + 1 + g.below(3) : -1 - g.below(3);
            bool t = false;
            try { w.offset(to); }
            catch (std::exception&) { t = true; }
            EXPECT(t, "offset out of bounds");
            EXPECT_EQ(w.offset(), off, "offset after refusal");
        }
        bool t = false;
        try { w.shape(nd + g.below(2)); }
        catch (std::exception&) { t = true; }
        EXPECT(t, "shape of a dimension there is not");
        t = false;
        try { w.stride(nd + g.below(2)); }
        catch (std::exception&) { t = true; }
        EXPECT(t, "stride of a dimension there is not");
    }
    else
        EXPECT(!w.defined(), "something assigned");
    std::string s = differs(v, m);
    EXPECT(s.empty(), "array " << s);
    // Of what is not a view
    EXPECT_EQ(v.shape(0), n, "shape(0)");
    EXPECT_EQ(v.shape(-1), n, "shape(-1)");
    EXPECT_EQ(v.stride(0), 1, "stride(0)");
    bool t = false;
    try { v.shape(1 + g.below(3)); }
    catch (std::exception&) { t = true; }
    EXPECT(t, "second shape of an array");
    t = false;
    try { v.stride(1 + g.below(3)); }
    catch (std::exception&) { t = true; }
    EXPECT(t, "second stride of an array");
}
