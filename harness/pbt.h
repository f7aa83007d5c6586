/*
 * A small property-based testing engine.
 *
 * A property is a function of a Gen.  Every random decision is a bounded draw
 * from Gen, recorded as a "choice"; a case is wholly described by its choice
 * vector, so that shrinking and replay work on choices and need nothing from
 * the generators.  0 is always the simplest choice.
 */
#ifndef PBT_H
#define PBT_H

#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt
{
    /** Thrown to report that the property does not hold */
    struct Fail : std::runtime_error
    {
        explicit Fail(const std::string& s) : std::runtime_error(s) {}
    };

    class Gen
    {
    public:
        // The source of choices: either a seed or a recording
        Gen(uint64_t iSeed, int iSize);
        Gen(const uint64_t* iChoice, size_t iN);

        // Primitive: uniform in [0, n)
        uint64_t draw(uint64_t n);

        // Derived
        int below(int n) { return (int)draw((uint64_t)(n > 0 ? n : 1)); }
        int range(int lo, int hi) { return lo + below(hi - lo + 1); }
        int64_t range64(int64_t lo, int64_t hi)
        {
            uint64_t span = (uint64_t)hi - (uint64_t)lo + 1;
            return (int64_t)((uint64_t)lo + (span ? draw(span) : draw(~0ull)));
        }
        bool flip() { return draw(2) == 1; }
        /** True about once in n; false is simpler */
        bool rare(int n) { return draw(n) == (uint64_t)n-1; }
        template<class T> const T& pick(const std::vector<T>& v)
        {
            return v[below((int)v.size())];
        }
        template<class T> T pick(std::initializer_list<T> v)
        {
            return *(v.begin() + below((int)v.size()));
        }
        /** Index with the given relative weights */
        int weighted(std::initializer_list<int> w);
        /** Bounded by the size of the case, which grows through the run */
        int sized(int max)
        {
            int m = (int)((long)max * size / 100);
            return below((m < 1 ? 1 : m) + 1);
        }
        /** As sized(), but now and then much bigger */
        int wide(int max, int big, int odds = 30)
        {
            return rare(odds) ? below(big + 1) : sized(max);
        }
        int size;

        // What the case was; always on, also used to tell cases apart
        std::ostringstream trace;
        // Counted over the run
        std::set<std::string> labels;
        void label(const std::string& s) { labels.insert(s); }
        void label(bool b, const char* s) { if (b) labels.insert(s); }
        void nontrivial(bool b = true) { if (b) mNontrivial = true; }
        bool isNontrivial() const { return mNontrivial; }

        const std::vector<uint64_t>& choices() const { return mChoice; }

    private:
        void record(uint64_t v);
        bool mReplay;
        uint64_t mState[2];
        const uint64_t* mIn;
        size_t mInN;
        size_t mPos;
        std::vector<uint64_t> mChoice;
        bool mNontrivial;
    };

    typedef void (*Fn)(Gen&);

    struct Test
    {
        const char* prop;
        const char* name;
        Fn fn;
        int n;          ///< Cases in the quick tier
        const char* rule;
        bool leaks;     ///< Check that the case frees what it allocates
    };

    std::vector<Test>& registry();

    struct Register
    {
        Register(const char* p, const char* n, Fn f, int c, const char* r,
                 bool l = true)
        {
            registry().push_back(Test{p, n, f, c, r, l});
        }
    };

    /**
     * True if what was just seen to fail, which is exactly what the id says,
     * is listed in known_findings.txt
     */
    bool known(Gen& g, const char* prop, const char* id);

    /** A directory to play in: private to the process, removed at the end */
    const std::string& scratch();

    int main(int argc, char** argv);

    // Failing

    [[noreturn]] void fail(const std::string& s);

    template<class A, class B>
    [[noreturn]] void failEq(const char* f, int l, const char* what,
                             const A& a, const B& b)
    {
        std::ostringstream s;
        s << f << ":" << l << ": " << what << ": got " << a
          << ", expected " << b;
        fail(s.str());
    }

    std::string quote(const std::string& s);
}

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)

/** PROPERTY(C01, name, cases, "rule") { body using g } */
#define PROPERTY(P, N, C, R)                                            \
    static void P##_##N(pbt::Gen& g);                                   \
    static pbt::Register P##_##N##_reg(#P, #N, P##_##N, C, R, true);    \
    static void P##_##N(pbt::Gen& g)

/** As above, where the environment legitimately retains memory */
#define PROPERTY_NOLEAK(P, N, C, R)                                     \
    static void P##_##N(pbt::Gen& g);                                   \
    static pbt::Register P##_##N##_reg(#P, #N, P##_##N, C, R, false);   \
    static void P##_##N(pbt::Gen& g)

#define EXPECT(c, ...)                                                  \
    do { if (!(c)) {                                                    \
            std::ostringstream pbt_s;                                   \
            pbt_s << __FILE__ << ":" << __LINE__ << ": " << #c << " "   \
                  << __VA_ARGS__;                                       \
            pbt::fail(pbt_s.str());                                     \
        } } while (0)

#define EXPECT_EQ(a, b, what)                                           \
    do { auto pbt_a = (a); auto pbt_b = (b);                            \
        if (!(pbt_a == pbt_b))                                          \
            pbt::failEq(__FILE__, __LINE__, what, pbt_a, pbt_b);        \
    } while (0)

#endif // PBT_H
