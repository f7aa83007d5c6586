/*
 * Random histories over a small pool of vars, in step with the model.
 */
#ifndef HISTORY_H
#define HISTORY_H

#include "model.h"

namespace history
{
    using namespace model;

    enum Op
    {
        ASSIGN, ALIAS, COPY, SETINDEX, SETKEY, PUSH, POP, SHIFT, UNSHIFT,
        INSERT, REMOVE, RESIZE, CLEAR, APPEND, APPENDRAW, ARRAY, PRESIZE,
        VIEW, OFFSET, VIEWSET, TAKE, INDEX, SORT, TOPSET, SUBVIEW, ELEMENT, NOPS
    };

    struct Config
    {
        std::vector<int> weight = std::vector<int>(NOPS, 0);
        int pool = 3;
        int maxOps = 40;
        int maxPath = 2;        // Depth of element addressed in place
        int maxGrow = 12;       // How far past the end to index
        bool complex = true;
        int depth = 2;          // Of generated values
        std::vector<int> types; // If not empty, start with arrays of these
    };

    struct Step
    {
        bool key;
        int idx;
        Val k;
    };

    class World
    {
    public:
        World(pbt::Gen& ig, const Config& ic) : g(ig), c(ic)
        {
            v.resize(c.pool);
            m.resize(c.pool);
        }

        void run()
        {
            if (!c.types.empty())
                for (int i=0; i<c.pool; i++)
                {
                    m[i] = genArray(c.types[g.below((int)c.types.size())]);
                    v[i] = build(m[i]);
                    g.trace << "v" << i << " = " << show(m[i]) << "; ";
                    check(i);
                }
            int n = 1 + g.sized(c.maxOps);
            for (int i=0; i<n; i++)
            {
                step();
                if (i % 4 == 3)
                    checkAll();
            }
            checkAll();
            identity();
        }

        int mutations = 0;      // Of something aliased
        int throws = 0;
        int grown = 0;
        int nested = 0;
        int elements = 0; // Elements used as operands
        int through = 0;        // Assigned through a view

        std::vector<var> v;
        std::vector<Val> m;

        pbt::Gen& g;
        const Config& c;

        Val genArray(int type)
        {
            Val r = mArr(type);
            int n = g.sized(20);
            if (type == TYPE_VAR)
                for (int i=0; i<n; i++)
                    r.p->s->e.push_back(genVal(g, 1, c.complex));
            else if (type == TYPE_PAIR)
            {
                for (int i=0; i<n; i++)
                {
                    Val k = genKey();
                    auto& ks = r.p->s->k;
                    size_t p = 0;
                    while (p < ks.size() && compare(ks[p], k) < 0)
                        ++p;
                    if (p < ks.size() && compare(ks[p], k) == 0)
                        continue;
                    ks.insert(ks.begin()+p, k);
                    r.p->s->e.insert(r.p->s->e.begin()+p,
                                     genVal(g, 1, c.complex));
                }
            }
            else
                for (int i=0; i<n; i++)
                    r.p->s->e.push_back(genSmall(g, type));
            return r;
        }

        Val genKey()
        {
            switch (g.weighted({6, 2, 1, 1}))
            {
            case 0: return mStr(genText(g, 4));
            case 1: return mInt(g.below(6));
            case 2: return mChar((char)('a' + g.below(4)));
            }
            // nil as a key just makes an empty map
            Val k = genVal(g, 1, false);
            return k.isNil() ? mStr("") : k;
        }

        void check(int i)
        {
            std::string s = differs(v[i], m[i]);
            if (!s.empty())
                pbt::fail("v" + std::to_string(i) + " " + s);
        }

        void checkAll()
        {
            for (int i=0; i<c.pool; i++)
                check(i);
        }

        /** Arrays share storage exactly when the model says so */
        void identity()
        {
            for (int i=0; i<c.pool; i++)
                for (int j=0; j<c.pool; j++)
                    if (i != j && m[i].isArr() && m[j].isArr()
                        && !m[i].p->view && !m[j].p->view)
                        EXPECT_EQ(v[i].is(v[j]), m[i].p->s == m[j].p->s,
                                  "is()");
        }

        static bool reach(const Val& x, const Storage* s, int depth = 0)
        {
            if (!x.isArr())
                return false;
            if (x.p->s.get() == s)
                return true;
            if (dense(x.p->type()))
                return false;
            for (auto& e : x.p->s->e)
                if (reach(e, s, depth+1))
                    return true;
            for (auto& e : x.p->s->k)
                if (reach(e, s, depth+1))
                    return true;
            return false;
        }

        static int height(const Val& x)
        {
            if (!x.isArr() || dense(x.p->type()))
                return 0;
            int h = 0;
            for (auto& e : x.p->s->e)
                h = std::max(h, height(e));
            for (auto& e : x.p->s->k)
                h = std::max(h, height(e));
            return h+1;
        }

        // --- Model operations on a cell

        static Val castTo(const Val& x, int type)
        {
            if (type == TYPE_VAR || type == TYPE_PAIR)
                return value(x);
            if (x.isArr() && x.p->type() == TYPE_CHAR && x.p->size() > 0)
            {
                // Only digits or letters are generated
                std::string s;
                for (int i=0; i<x.p->size(); i++)
                    s += (char)x.p->at(i).i;
                if (type == TYPE_CHAR)
                    return mChar(s[0]);
                if (!isdigit(s[0]))
                    throw Throws();
                return castTo(mInt(atoi(s.c_str())), type);
            }
            if (x.isArr())
            {
                if (x.p->size() != 1)
                    throw Throws();
                return castTo(x.p->at(0), type);
            }
            if (x.t == UNKNOWN)
                return x;
            double re = x.re, im = x.im;
            bool integer = x.isNil() || x.t == TYPE_CHAR || x.t == TYPE_INT
                || x.t == TYPE_LONG;
            if (integer)
            {
                re = (double)x.i;
                im = 0;
            }
            switch (type)
            {
            case TYPE_CHAR: return mChar((char)(integer ? x.i : (char)re));
            case TYPE_INT: return mInt((int)(integer ? x.i : (int)re));
            case TYPE_LONG: return mLong(integer ? x.i : (long)re);
            case TYPE_FLOAT:
                return mFloat(integer ? (float)x.i : (float)re);
            case TYPE_DOUBLE:
                return mDouble(integer ? (double)x.i : re);
            case TYPE_CFLOAT:
                return mCFloat(cfloat(integer ? (float)x.i : re, im));
            case TYPE_CDOUBLE:
                return mCDouble(cdouble(re, im));
            }
            return x;
        }

        /** Reading an element as a value */
        static Val value(const Val& e)
        {
            if (e.t == TYPE_CDOUBLE)
            {
                Val r = mArr(TYPE_CDOUBLE);
                r.p->s->e.push_back(e);
                return r;
            }
            return e;
        }

        static bool copyable(const Val& c, const Val& x)
        {
            if (!c.isArr() || !c.p->view || !x.isArr())
                return false;
            Obj& a = *c.p;
            Obj& b = *x.p;
            if (a.type() != b.type() || a.dim() != b.dim())
                return false;
            if (a.dim() == 1)
                return a.size() == b.size();
            return a.shape == b.shape;
        }

        static void assign(Val& c, const Val& x)
        {
            if (copyable(c, x))
            {
                std::vector<Val> t;
                for (int i=0; i<x.p->size(); i++)
                    t.push_back(x.p->at(i));
                for (int i=0; i<(int)t.size(); i++)
                    c.p->at(i) = t[i];
            }
            else
                c = x;
        }

        static void resize(Val& c, int n)
        {
            if (n < 0)
                throw Throws();
            if (c.isNil())
                c = mArr(TYPE_VAR);
            else if (c.scalar())
            {
                if (n < 2)
                    return;
                Val x = c;
                c = mArr(x.t);
                c.p->s->e.push_back(x);
            }
            else if (c.p->view)
                throw Throws();
            c.p->s->e.resize(n, dense(c.p->type()) ? mUnknown() : Val());
            if (c.p->type() == TYPE_PAIR)
                c.p->s->k.resize(n);
        }

        static void array(Val& c)
        {
            if (c.isArr())
                return;
            Val x = c;
            c = mArr(x.isNil() ? (int)TYPE_VAR : x.t);
            c.p->s->e.push_back(x);
        }

        static void setIndex(Val& c, int i, const Val& x)
        {
            if (i < 0)
                throw Throws();
            if (i >= sizeOf(c))
                resize(c, i+1);
            array(c);
            if (dense(c.p->type()))
                c.p->at(i) = castTo(x, c.p->type());
            else
                assign(c.p->at(i), x);
        }

        static void push(Val& c, const Val& x)
        {
            if (c.isNil())
            {
                if (x.scalar())
                {
                    c = x;
                    return;
                }
            }
            else if (c.scalar() && x.t != c.t)
                throw Throws();
            if (c.isArr() && dense(c.p->type()))
                castTo(x, c.p->type());
            setIndex(c, sizeOf(c), x);
        }

        static void insert(Val& c, const Val& x, int i)
        {
            if (i < 0 || i > sizeOf(c))
                throw Throws();
            if (c.isArr() && c.p->view)
            {
                // Inserting nothing still resizes
                throw Throws();
            }
            if (c.isArr() && c.p->type() == TYPE_VAR)
            {
                c.p->s->e.insert(c.p->s->e.begin()+i, x);
                return;
            }
            std::vector<Val> t;
            if (x.isArr())
                for (int j=0; j<x.p->size(); j++)
                    t.push_back(x.p->at(j));
            else if (!x.isNil())
                t.push_back(x);
            // What is refused changes nothing
            for (auto& y : t)
                y = castTo(y, elemType(c));
            resize(c, sizeOf(c) + (int)t.size());
            if (c.scalar())
                return;
            auto& e = c.p->s->e;
            e.resize(e.size() - t.size());
            e.insert(e.begin()+i, t.begin(), t.end());
        }

        static Val shallow(const Val& x)
        {
            if (!x.isArr())
                return x;
            Val r;
            r.p = std::make_shared<Obj>(*x.p);
            r.p->s = std::make_shared<Storage>(*x.p->s);
            return r;
        }

        static Val remove(Val& c, int i)
        {
            if (i < 0 || i >= sizeOf(c))
                throw Throws();
            if (c.scalar())
                return c;
            if (c.p->view)
                throw Throws();
            Val r = value(c.p->at(i));
            c.p->s->e.erase(c.p->s->e.begin()+i);
            if (isMap(c))
                c.p->s->k.erase(c.p->s->k.begin()+i);
            return shallow(r);
        }

        static Val pop(Val& c)
        {
            int n = sizeOf(c);
            if (n < 1)
                throw Throws();
            if (c.scalar())
                return c;
            if (c.p->view)
                throw Throws();
            Val r = value(c.p->at(n-1));
            resize(c, n-1);
            return r;
        }

        static Val shift(Val& c)
        {
            if (!c.isArr())
                return c;
            if (c.p->view || c.p->size() < 1)
                throw Throws();
            Val r = value(c.p->at(0));
            c.p->s->e.erase(c.p->s->e.begin());
            if (isMap(c))
                c.p->s->k.erase(c.p->s->k.begin());
            return r;
        }

        static void unshift(Val& c, const Val& x)
        {
            if (c.isNil())
            {
                assign(c, x);
                return;
            }
            if (c.isArr() && (c.p->view || isMap(c)))
                throw Throws();
            Val y = castTo(x, elemType(c));
            array(c);
            c.p->s->e.insert(c.p->s->e.begin(), y);
        }

        /** Position of a key, and whether it's there */
        static int find(const Val& c, const Val& k, bool& oFound)
        {
            auto& ks = c.p->s->k;
            int p = 0;
            while (p < (int)ks.size() && compare(ks[p], k) < 0)
                ++p;
            oFound = p < (int)ks.size() && compare(ks[p], k) == 0;
            return p;
        }

        static Val& key(Val& c, const Val& k)
        {
            if (c.isNil())
                c = mArr(TYPE_PAIR);
            bool f;
            int p = find(c, k, f);
            if (!f)
            {
                c.p->s->k.insert(c.p->s->k.begin()+p, k);
                c.p->s->e.insert(c.p->s->e.begin()+p, Val());
            }
            return c.p->s->e[p];
        }

        // --- Targets

        /** A place in the pool, perhaps deep inside something */
        struct Target
        {
            int slot;
            std::vector<Step> path;
            Val* cell;
            Storage* within; // What the cell is an element of, or null
            std::vector<Val*> on; // The cells on the way
        };

        Target target()
        {
            Target t;
            t.slot = g.below(c.pool);
            t.cell = &m[t.slot];
            t.on.push_back(t.cell);
            t.within = 0;
            int n = c.maxPath > 0 ? g.weighted({6, 2, 1}) : 0;
            for (int i=0; i<n && i<c.maxPath; i++)
            {
                Val& x = *t.cell;
                if (!x.isArr() || dense(x.p->type()) || x.p->size() == 0
                    || x.p->view)
                    break;
                Step s;
                s.idx = g.below(x.p->size());
                s.key = isMap(x) && g.flip();
                if (s.key)
                    s.k = x.p->s->k[s.idx];
                t.path.push_back(s);
                t.within = x.p->s.get();
                t.cell = &x.p->s->e[s.idx];
                t.on.push_back(t.cell);
            }
            if (!t.path.empty())
                ++nested;
            return t;
        }

        std::string name(const Target& t)
        {
            std::string s = "v" + std::to_string(t.slot);
            for (auto& p : t.path)
                s += "[" + (p.key ? show(p.k) : std::to_string(p.idx)) + "]";
            return s;
        }

        /** Apply f to the var at the target */
        template<class F> void with(const Target& t, F f)
        {
            descend(v[t.slot], t, 0, f);
        }

        template<class F>
        void descend(var& r, const Target& t, size_t i, F f)
        {
            if (i == t.path.size())
            {
                f(r);
                return;
            }
            if (t.path[i].key)
            {
                var k = build(t.path[i].k);
                var n = r[k];
                descend(n, t, i+1, f);
            }
            else
            {
                var n = r[t.path[i].idx];
                descend(n, t, i+1, f);
            }
        }

        /**
         * Something to store in the cell, or in an array in the cell, without
         * making a cycle.  Model and reality.
         */
        void operand(const Target& t, int into, Val& om, var& ov)
        {
            if (g.rare(4) && elementOf(t, into, om, ov))
                return;
            if (into != TYPE_VAR && into != TYPE_PAIR)
            {
                if (g.rare(12))
                {
                    om = awkward();
                    ov = build(om);
                    g.trace << show(om);
                    return;
                }
                om = genSmall(g, g.rare(3) ? genScalarType(g) : into);
                ov = build(om);
                g.trace << show(om);
                return;
            }
            if (g.rare(3))
            {
                // Something that already exists
                int j = g.below(c.pool);
                if (safe(t, m[j]))
                {
                    om = m[j];
                    ov = v[j];
                    g.trace << "v" << j;
                    return;
                }
            }
            om = genVal(g, c.depth, c.complex);
            ov = build(om);
            g.trace << show(om);
        }

        /** What may not be an element of a dense array, or be converted */
        Val awkward()
        {
            Val r;
            switch (g.below(5))
            {
            case 0: return Val();
            case 1: return mStr(std::string(1 + g.below(4), 'a' + g.below(20)));
            case 2: return mStr(std::to_string(g.below(100)));
            case 3:
            {
                int t = g.pick({TYPE_INT, TYPE_LONG, TYPE_DOUBLE});
                r = mArr(t);
                for (int i=2+g.below(2); i>0; i--)
                    r.p->s->e.push_back(genSmall(g, t));
                return r;
            }
            default:
                r = mArr(TYPE_VAR);
                for (int i=2+g.below(2); i>0; i--)
                    r.p->s->e.push_back(
                        g.flip() ? genSmall(g, TYPE_INT)
                        : g.flip() ? mStr("abc") : mStr("12"));
                return r;
            }
        }

        /** An element of something that exists, as a live reference */
        bool elementOf(const Target& t, int into, Val& om, var& ov)
        {
            int j = g.below(c.pool);
            Val& a = m[j];
            if (!a.isArr() || dangling(a) || a.p->size() == 0)
                return false;
            // See C05/self
            if (into == TYPE_PAIR && t.cell->isArr()
                && a.p->s == t.cell->p->s)
                return false;
            int i = g.below(a.p->size());
            // It would change on the way
            for (Val* p : t.on)
                if (p == &a.p->at(i))
                    return false;
            Val y = value(a.p->at(i));
            if (y.t == UNKNOWN || !safe(t, y))
                return false;
            if (dense(into) ? a.p->type() != into || into == TYPE_CDOUBLE
                : a.p->type() == TYPE_CDOUBLE)
                return false;
            om = y;
            // Assignment would dereference it
            ov.~var();
            new (&ov) var(v[j].at(i));
            g.trace << "v" << j << ".at(" << i << ")";
            ++elements;
            return true;
        }

        /** Storing x in the cell, or an array in the cell, makes no cycle */
        bool safe(const Target& t, const Val& x)
        {
            if (dangling(x))
                return false;
            if (t.within && reach(x, t.within))
                return false;
            if (t.cell->isArr() && reach(x, t.cell->p->s.get()))
                return false;
            return height(x) < 5;
        }

        static int elemType(const Val& c)
        {
            return c.isArr() ? c.p->type() : c.isNil() ? (int)TYPE_VAR : c.t;
        }

        template<class FM, class FV>
        void both(const Target& t, FM fm, FV fv)
        {
            bool mThrew = false, vThrew = false;
            std::string what;
            try
            {
                fm(*t.cell);
            }
            catch (Throws&)
            {
                mThrew = true;
            }
            try
            {
                with(t, fv);
            }
            catch (std::exception& e)
            {
                vThrew = true;
                what = e.what();
                what = what.substr(0, what.find('\n'));
            }
            if (mThrew)
            {
                g.trace << "(throws)";
                ++throws;
            }
            g.trace << "; ";
            if (mThrew != vThrew)
                pbt::fail(mThrew ? "did not throw" : "threw: " + what);
        }

        /** The number of ways to get at an array */
        bool shared(const Val& x)
        {
            return x.isArr() && (x.p->s.use_count() > 1
                                 || x.p.use_count() > 1);
        }

        void step()
        {
            int total = 0;
            for (int w : c.weight)
                total += w;
            int d = g.below(total);
            int op = 0;
            while (d >= c.weight[op])
                d -= c.weight[op++];
            Target t = target();
            Val& x = *t.cell;
            if (x.t == UNKNOWN || dangling(x))
                return;
            if (shared(x))
                ++mutations;
            int before = sizeOf(x);
            switch (op)
            {
            case ASSIGN:
            {
                Val y = genVal(g, c.depth, c.complex);
                g.trace << name(t) << " = " << show(y);
                through += copyable(x, y);
                var r = build(y);
                both(t, [&](Val& c) { assign(c, y); },
                     [&](var& v) { v = r; });
                break;
            }
            case ALIAS:
            {
                int j = g.below(c.pool);
                if (x.isArr() && x.p->view && g.flip())
                    for (int k=0; k<c.pool && !copyable(x, m[j]); k++)
                        j = (j+1) % c.pool;
                if (dangling(m[j]))
                    break;
                if (!safe(t, m[j]) && (t.within || copyable(x, m[j])))
                    break;
                g.trace << name(t) << " = v" << j;
                Val y = m[j];
                through += copyable(x, y);
                both(t, [&](Val& c) { assign(c, y); },
                     [&](var& r) { r = v[j]; });
                break;
            }
            case ELEMENT:
            {
                // What one element holds, put in another
                Target u = target();
                if (g.rare(4))
                    u = t;
                Val& z = *u.cell;
                if (z.t == UNKNOWN || dangling(z))
                    break;
                if (&z != t.cell && !safe(t, z)
                    && (t.within || copyable(x, z)))
                    break;
                g.trace << name(t) << " = " << name(u);
                Val y = value(z);
                if (!t.path.empty() && !u.path.empty())
                    ++elements;
                both(t, [&](Val& c) { assign(c, y); },
                     [&](var& r) {
                         with(u, [&](var& w) { r = w; });
                     });
                break;
            }
            case COPY:
            {
                int j = g.below(c.pool);
                if (dangling(m[j]))
                    break;
                if (!safe(t, m[j]) && (t.within || copyable(x, m[j])))
                    break;
                g.trace << name(t) << " = v" << j << ".copy()";
                Val y = shallow(m[j]);
                both(t, [&](Val& c) { assign(c, y); },
                     [&](var& r) { r = v[j].copy(); });
                break;
            }
            case SETINDEX:
            {
                int n = sizeOf(x);
                bool map = isMap(x);
                bool view = x.isArr() && x.p->view;
                if (map && n == 0)
                    break;
                int i = (n == 0 || (!map && g.rare(3)))
                    ? n + g.below(c.maxGrow) : g.below(n);
                if (g.rare(30))
                    i = -1 - g.below(3);
                g.trace << name(t) << "[" << i << "] = ";
                Val y; var r;
                operand(t, elemType(x), y, r);
                if (view && i >= n)
                {
                    // Views cannot grow
                }
                both(t, [&](Val& c) { setIndex(c, i, y); },
                     [&](var& v) { v[i] = r; });
                break;
            }
            case SETKEY:
            {
                if (!x.isNil() && !isMap(x))
                    break;
                Val k;
                if (isMap(x) && x.p->size() && g.flip())
                    k = x.p->s->k[g.below(x.p->size())];
                else
                    k = genKey();
                if (k.isNil())
                    break;
                // Keys are shared too, so use a private one
                var kv = build(k);
                g.trace << name(t) << "[" << show(k) << "] = ";
                Val y; var r;
                operand(t, TYPE_PAIR, y, r);
                both(t, [&](Val& c) { assign(key(c, k), y); },
                     [&](var& v) { v[kv] = r; });
                break;
            }
            case PUSH:
            {
                if (isMap(x))
                    break;
                g.trace << name(t) << ".push(";
                Val y; var r;
                operand(t, elemType(x), y, r);
                g.trace << ")";
                both(t, [&](Val& c) { push(c, y); },
                     [&](var& v) { v.push(r); });
                break;
            }
            case POP:
            case SHIFT:
            case REMOVE:
            {
                int n = sizeOf(x);
                int i = op == REMOVE
                    ? (g.rare(10) ? g.range(-2, n+2) : g.below(n ? n : 1)) : 0;
                g.trace << name(t) << (op == POP ? ".pop()" : op == SHIFT
                                       ? ".shift()" : ".remove(");
                if (op == REMOVE)
                    g.trace << i << ")";
                Val y; var r;
                bool ok = false;
                // The cell may go away if it's removed through itself
                both(t, [&](Val& c) {
                    y = op == POP ? pop(c) : op == SHIFT ? shift(c)
                        : remove(c, i);
                }, [&](var& v) {
                    r = op == POP ? v.pop() : op == SHIFT ? v.shift()
                        : v.remove(i);
                    ok = true;
                });
                if (ok)
                {
                    std::string s = differs(r, y);
                    if (!s.empty())
                        pbt::fail("returned value " + s);
                }
                break;
            }
            case UNSHIFT:
            {
                g.trace << name(t) << ".unshift(";
                Val y; var r;
                operand(t, elemType(x), y, r);
                g.trace << ")";
                both(t, [&](Val& c) { unshift(c, y); },
                     [&](var& v) { v.unshift(r); });
                break;
            }
            case INSERT:
            case APPEND:
            {
                if (isMap(x))
                    break;
                int n = sizeOf(x);
                int i = op == APPEND ? n : g.rare(15) ? g.range(-2, n+3)
                    : g.below(n+1);
                g.trace << name(t) << (op == APPEND ? ".append(" : ".insert(");
                Val y; var r;
                int type = elemType(x);
                if (dense(type) && g.rare(3) && x.isArr())
                {
                    // A whole array of the same type, perhaps the same one
                    int j = g.below(c.pool);
                    if (m[j].isArr() && m[j].p->type() == type
                        && !dangling(m[j]) && (m[j].p->off + m[j].p->size()
                            <= (int)m[j].p->s->e.size())
                        && m[j].p->size() < 100)
                    {
                        y = m[j];
                        r = v[j];
                        g.trace << "v" << j;
                    }
                    else
                    {
                        y = genArray(type);
                        r = build(y);
                        g.trace << show(y);
                    }
                }
                else
                    operand(t, type, y, r);
                if (op == INSERT)
                    g.trace << ", " << i;
                g.trace << ")";
                both(t, [&](Val& c) { insert(c, y, i); },
                     [&](var& v) {
                         if (op == APPEND)
                             v.append(r);
                         else
                             v.insert(r, i);
                     });
                break;
            }
            case RESIZE:
            {
                int n = sizeOf(x);
                if (isMap(x) || (x.isArr() && x.p->view && g.flip()))
                    break;
                int k = g.below(n + c.maxGrow); // Negative breaks a precondition
                g.trace << name(t) << ".resize(" << k << ")";
                both(t, [&](Val& c) { resize(c, k); },
                     [&](var& v) { v.resize(k); });
                break;
            }
            case PRESIZE:
            {
                int n = sizeOf(x);
                if (isMap(x) || (x.isArr() && x.p->view))
                    break;
                int k = n + g.below(c.maxGrow * 3);
                g.trace << name(t) << ".presize(" << k << ")";
                both(t, [&](Val& c) { resize(c, k); resize(c, n); },
                     [&](var& v) { v.presize(k); });
                break;
            }
            case CLEAR:
                g.trace << name(t) << ".clear()";
                both(t, [&](Val& c) { c = Val(); }, [&](var& v) { v.clear(); });
                break;
            case APPENDRAW:
            {
                // C string or raw array
                std::string s = genText(g, 20);
                for (auto& ch : s)
                    if (!ch)
                        ch = 'z';
                if (g.flip())
                {
                    if (isMap(x))
                        break;
                    g.trace << name(t) << ".append(c-string "
                            << pbt::quote(s) << ")";
                    both(t, [&](Val& c) {
                        Val y = mStr(s);
                        if (c.isNil())
                            c = y;
                        else if (c.t == TYPE_CHAR)
                        {
                            array(c);
                            insert(c, y, 1);
                        }
                        else
                            insert(c, y, sizeOf(c));
                    }, [&](var& v) { v.append(s.c_str()); });
                }
                else
                {
                    std::vector<int> d;
                    Val y = mArr(TYPE_INT);
                    for (char ch : s)
                    {
                        d.push_back(ch);
                        y.p->s->e.push_back(mInt(ch));
                    }
                    g.trace << name(t) << ".append<int>(" << show(y) << ")";
                    both(t, [&](Val& c) {
                        if (c.isNil())
                            c = y;
                        else if (elemType(c) != TYPE_INT)
                            throw Throws();
                        else
                        {
                            if (c.isArr() && c.p->view)
                                throw Throws();
                            array(c);
                            insert(c, y, c.p->size());
                        }
                    }, [&](var& v) {
                        v.append((int)d.size(), d.data());
                    });
                }
                break;
            }
            case ARRAY:
                g.trace << name(t) << ".array()";
                both(t, [&](Val& c) { array(c); }, [&](var& v) { v.array(); });
                break;
            case VIEW:
            {
                int j = g.below(c.pool);
                Val b = m[j];
                if (dangling(b))
                    break;
                if (t.within)
                    break;
                if (isMap(b))
                    break;
                std::vector<int> shape;
                int dim = g.rare(6) ? 4 : 1 + g.below(3);
                int n = b.isArr() ? (int)b.p->s->e.size() : 4;
                for (int i=0; i<dim; i++)
                    shape.push_back(
                        i == 0 ? g.below(n+1) : 1 + g.below(3));
                // Perhaps the shape of something else
                const Val& like = m[g.below(c.pool)];
                if (like.isArr() && g.flip())
                {
                    dim = std::min(4, like.p->dim());
                    shape.clear();
                    for (int i=0; i<dim; i++)
                        shape.push_back(like.p->dimSize(i));
                    if (dim == 1 && g.rare(3))
                        shape[0] = n / 2;
                }
                // Usually make it fit
                if (!g.rare(6))
                {
                    int p = 1;
                    for (int i=1; i<dim; i++)
                        p *= shape[i];
                    int base = b.isArr() && b.p->view ? b.p->off : 0;
                    int room = n - base;
                    if (room < 0)
                        room = 0;
                    shape[0] = std::min(shape[0], room / (p ? p : 1));
                    if (shape[0] == 0 || p == 0)
                        for (auto& s : shape)
                            s = std::min(s, room);
                }
                int size = 1;
                for (int s : shape)
                    size *= s;
                if (b.isArr() && b.p->type() == TYPE_VAR && size == 1)
                    break;
                int base = b.isArr() && b.p->view ? b.p->off : 0;
                int off = (g.flip() || n < size + base) ? 0
                    : g.below(n - size - base + 1);
                if (g.rare(15))
                    off += g.range(-3, 3);
                g.trace << "v" << t.slot << " = v" << j << ".view({";
                for (int s : shape)
                    g.trace << s << ",";
                g.trace << "}, " << off << ")";
                bool list = g.flip();
                var sv;
                for (int s : shape)
                    sv.push(s);
                if (copyable1(m[t.slot], b, shape)
                    && b.p->type() == TYPE_VAR)
                {
                    g.trace << "; ";
                    break; // Could make cycles
                }
                both(t, [&](Val& c) {
                    if (!b.isArr())
                        throw Throws();
                    int o = base + off;
                    long p = 1;
                    for (int i=dim-1; i>=0; i--)
                    {
                        p *= shape[i];
                        if (p > (long)b.p->s->e.size())
                            throw Throws();
                    }
                    if (o < 0 || o + p > (long)b.p->s->e.size())
                        throw Throws();
                    Val y;
                    y.p = std::make_shared<Obj>();
                    y.p->s = b.p->s;
                    y.p->view = true;
                    y.p->off = o;
                    y.p->shape = shape;
                    through += copyable(c, y);
                    assign(c, y);
                }, [&](var& r) {
                    if (list)
                        switch (dim)
                        {
                        case 1: r = v[j].view({shape[0]}, off); break;
                        case 2:
                            r = v[j].view({shape[0], shape[1]}, off);
                            break;
                        case 3:
                            r = v[j].view({shape[0], shape[1], shape[2]}, off);
                            break;
                        default:
                            r = v[j].view(
                                {shape[0], shape[1], shape[2], shape[3]}, off);
                        }
                    else
                        r = v[j].view(sv, off);
                });
                break;
            }
            case SUBVIEW:
            {
                int j = g.below(c.pool);
                Val b = m[j];
                if (dangling(b))
                    break;
                if (t.within || !b.isArr() || !b.p->view
                    || b.p->size() == 0 || b.p->type() == TYPE_VAR)
                    break;
                int dim = b.p->dim();
                int d = g.rare(10) ? 0 : 1 + g.below(dim);
                std::vector<int> shape(
                    b.p->shape.end() - d, b.p->shape.end());
                int size = 1;
                for (int s : shape)
                    size *= s;
                int n = size ? b.p->size() / size : 0;
                int off = n ? g.below(n) * size : 0;
                g.trace << "v" << t.slot << " = v" << j << ".subview(" << d
                        << ", " << off << ")";
                both(t, [&](Val& c) {
                    if (d < 1)
                        throw Throws();
                    if (b.p->off + off + size > (int)b.p->s->e.size())
                        throw Throws();
                    Val y;
                    y.p = std::make_shared<Obj>();
                    y.p->s = b.p->s;
                    y.p->view = true;
                    y.p->off = b.p->off + off;
                    y.p->shape = shape;
                    through += copyable(c, y);
                    assign(c, y);
                }, [&](var& r) { r = v[j].subview(d, off); });
                break;
            }
            case OFFSET:
            {
                int o = g.range(-1, 12);
                bool adv = g.flip();
                g.trace << name(t) << (adv ? ".advance(" : ".offset(") << o
                        << ")";
                both(t, [&](Val& c) {
                    if (!c.isArr() || !c.p->view)
                        throw Throws();
                    int k = adv ? c.p->off + o : o;
                    if (k < 0 || k + c.p->size() > (int)c.p->s->e.size())
                        throw Throws();
                    c.p->off = k;
                }, [&](var& r) {
                    if (adv)
                        r.advance(o);
                    else
                        r.offset(o);
                });
                break;
            }
            case VIEWSET:
            {
                // Through the indexing operator
                if (!x.isArr() || !x.p->view || x.p->type() == TYPE_VAR)
                    break;
                int dim = x.p->dim();
                std::vector<int> at;
                int p = 0;
                bool in = true;
                for (int d=0; d<dim; d++)
                {
                    int s = x.p->shape[d];
                    int i = (s == 0 || g.rare(20)) ? g.range(-1, s)
                        : g.below(s);
                    in = in && i >= 0 && i < s;
                    at.push_back(i);
                    p = p * s + i;
                }
                if (x.p->off + x.p->size() > (int)x.p->s->e.size())
                    break;
                g.trace << name(t) << "(";
                for (int i : at)
                    g.trace << i << ",";
                g.trace << ") = ";
                Val y; var r;
                operand(t, x.p->type(), y, r);
                both(t, [&](Val& c) {
                    if (!in)
                        throw Throws();
                    c.p->at(p) = castTo(y, c.p->type());
                }, [&](var& v) {
                    if (dim == 1)
                        v(at[0]) = r;
                    else if (dim == 2)
                        v(at[0], at[1]) = r;
                    else if (dim == 3)
                        v(at[0], at[1], at[2]) = r;
                    else
                        v(at[0], at[1], at[2], at[3]) = r;
                });
                break;
            }
            case TAKE:
            {
                // The value of an element
                int j = g.below(c.pool);
                if (j == t.slot)
                    break;
                int n = sizeOf(x);
                int i = g.rare(12) ? g.range(-2, n+2) : g.below(n ? n : 1);
                if (x.isArr() && x.p->view
                    && x.p->off + n > (int)x.p->s->e.size())
                    break;
                if (x.isArr() && i >= 0 && i < n && copyable(
                        m[j], value(x.p->at(i))))
                    break;
                if (x.isArr() && i >= 0 && i < n
                    && x.p->at(i).t == UNKNOWN)
                    break;
                g.trace << "v" << j << " = " << name(t) << ".at(" << i << ")";
                Val y; var r;
                both(t, [&](Val& c) {
                    if (i < 0 || i >= n)
                        throw Throws();
                    y = c.scalar() ? c : value(c.p->at(i));
                    m[j] = y;
                }, [&](var& r) { v[j] = r.at(i); });
                check(j);
                break;
            }
            case INDEX:
            {
                Val y;
                if (x.isArr() && x.p->size() && g.flip())
                    y = isMap(x) ? x.p->s->k[g.below(x.p->size())]
                        : value(x.p->s->e[g.below((int)x.p->s->e.size())]);
                else
                    y = isMap(x) ? genKey() : genVal(g, 1, c.complex);
                if (hasUnknown(x) || y.t == UNKNOWN || x.t == UNKNOWN
                    || hasUnknown(y) || hasView(y))
                    break;
                if (x.isArr() && (x.p->type() == TYPE_CDOUBLE))
                    break;
                var k = build(y);
                int want = -1;
                if (isMap(x))
                {
                    bool f;
                    int p = find(x, y, f);
                    if (f && !x.p->view)
                        want = p;
                }
                else if (x.scalar())
                    want = equal(x, y) ? 0 : -1;
                else if (x.isArr())
                {
                    if (x.p->off + x.p->size() > (int)x.p->s->e.size())
                        break;
                    for (int i=0; i<x.p->size() && want < 0; i++)
                        if (equal(value(x.p->at(i)), y))
                            want = i;
                }
                g.trace << name(t) << ".index(" << show(y) << ") == " << want
                        << "; ";
                int got = -99;
                bool yes = false;
                with(t, [&](var& v) {
                    ind i = v.index(k);
                    yes = (bool)i;
                    got = (int)i;
                });
                EXPECT_EQ(got, want, "index()");
                EXPECT_EQ(yes, want >= 0, "index() as bool");
                if (isMap(x) && !y.isNil())
                {
                    with(t, [&](var& v) {
                        const var& cv = v;
                        var e = cv.at(k);
                        std::string s = differs(
                            e, want < 0 ? Val() : x.p->s->e[want]);
                        if (!s.empty())
                            pbt::fail("at(key) " + s);
                    });
                }
                break;
            }
            case TOPSET:
            {
                int n = sizeOf(x);
                if (n == 0 || !x.isArr())
                    break;
                if (x.p->view && x.p->off + n > (int)x.p->s->e.size())
                    break;
                g.trace << name(t) << ".top() = ";
                Val y; var r;
                operand(t, elemType(x), y, r);
                both(t, [&](Val& c) { setIndex(c, n-1, y); },
                     [&](var& v) { v.top() = r; });
                break;
            }
            default:
                break;
            }
            (void)before;
            check(t.slot);
            if (sizeOf(m[t.slot]) > 8)
                ++grown;
        }

        static bool copyable1(const Val& c, const Val& b,
                              const std::vector<int>& shape)
        {
            return c.isArr() && b.isArr() && c.p->view
                && c.p->type() == b.p->type() && c.p->shape == shape;
        }

        static bool hasView(const Val& x)
        {
            if (!x.isArr())
                return false;
            if (x.p->view)
                return true;
            for (auto& e : x.p->s->e)
                if (hasView(e))
                    return true;
            return false;
        }

        /** A view onto an array that has since shrunk, or containing one */
        static bool dangling(const Val& x)
        {
            if (!x.isArr())
                return false;
            if (x.p->view
                && x.p->off + x.p->size() > (int)x.p->s->e.size())
                return true;
            for (auto& e : x.p->s->e)
                if (dangling(e))
                    return true;
            return false;
        }

        static bool hasUnknown(const Val& x)
        {
            if (x.t == UNKNOWN)
                return true;
            if (!x.isArr())
                return false;
            for (auto& e : x.p->s->e)
                if (hasUnknown(e))
                    return true;
            return false;
        }

    };
}

#endif // HISTORY_H
