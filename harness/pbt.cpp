/*
 * The engine: workers, crash isolation, leak accounting, shrinking, replay and
 * evidence.  See pbt.h
 */
#include "pbt.h"

#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstdlib>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <map>
#include <new>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

// gcc does not install sanitizer/allocator_interface.h
extern "C" int __sanitizer_install_malloc_and_free_hooks(
    void (*)(const volatile void*, size_t), void (*)(const volatile void*));
extern "C" size_t __sanitizer_get_allocated_size(const volatile void*);

extern "C" const char* __asan_default_options()
{
    return "detect_leaks=0:exitcode=99:handle_abort=1:detect_odr_violation=0"
        ":max_allocation_size_mb=1500:allocator_may_return_null=0"
        ":detect_stack_use_after_return=0:quarantine_size_mb=16"
        ":max_malloc_fill_size=65536:malloc_fill_byte=190";
}

extern "C" const char* __ubsan_default_options()
{
    return "print_stacktrace=1:exitcode=99";
}

namespace
{
    using namespace pbt;

    const int cWorkers = 8;
    const size_t cMaxChoice = 1 << 16;
    const size_t cMsg = 1 << 15;
    const size_t cTrace = 1 << 16;
    const size_t cHash = 1 << 20;
    const int cHangSec = 15;

    // Exit codes of a child that ran a case
    enum { OK = 0, FAILED = 1, ASAN = 99, HANG = 78, MEMORY = 77 };

    struct Shared
    {
        std::atomic<int> done;          // Completed its share
        std::atomic<int> failed;        // Soft failure recorded in msg
        std::atomic<int> test;
        std::atomic<long> index;        // Case being run
        std::atomic<size_t> nChoice;
        std::atomic<long> evaluations;
        std::atomic<long> nontrivial;
        std::atomic<size_t> nHash;
        uint64_t choice[cMaxChoice];
        char msg[cMsg];
        char trace[cTrace];
        char labels[cTrace];            // name\tcount\n
        char sample[4][4096];
        int nSample;
        uint64_t hash[cHash];
    };

    Shared* gShared = 0; // Of this process
    bool gPublishLive = false; // Mirror choices and trace as they happen
    std::string gScratch;
    std::string gRoot;

    // Allocation accounting, on only while a case runs
    bool gCount = false;
    long gLive = 0;
    long gBytes = 0;
    const long cMaxBytes = 1500l << 20;

    void mallocHook(const volatile void* p, size_t n)
    {
        if (!gCount || !p)
            return;
        ++gLive;
        gBytes += n;
        if (gBytes > cMaxBytes)
        {
            const char m[] = "pbt: case uses more than 1.5 GB\n";
            if (write(2, m, sizeof m - 1) < 0) {}
            _exit(MEMORY);
        }
    }

    void freeHook(const volatile void* p)
    {
        if (!gCount || !p)
            return;
        --gLive;
        gBytes -= __sanitizer_get_allocated_size(p);
    }

    void hangHandler(int)
    {
        const char m[] = "pbt: case uses more than its CPU time\n";
        if (write(2, m, sizeof m - 1) < 0) {}
        _exit(HANG);
    }

    void setTimer(double iSec)
    {
        struct itimerval t;
        memset(&t, 0, sizeof t);
        t.it_value.tv_sec = (long)iSec;
        t.it_value.tv_usec = (long)((iSec - (long)iSec) * 1e6);
        setitimer(ITIMER_PROF, &t, 0);
    }

    uint64_t splitmix(uint64_t& s)
    {
        uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }

    uint64_t fnv(const std::string& s, uint64_t h = 1469598103934665603ull)
    {
        for (unsigned char c : s)
            h = (h ^ c) * 1099511628211ull;
        return h;
    }

    uint64_t caseSeed(uint64_t iSeed, const Test& t, long i)
    {
        uint64_t s = fnv(std::string(t.prop) + "/" + t.name) ^ (iSeed * 7919);
        s = splitmix(s) + (uint64_t)i;
        return splitmix(s);
    }

    int caseSize(long i, long n)
    {
        // Small ones first, but all sizes early on
        (void)n;
        return 1 + (int)((i / cWorkers) * 37 % 100);
    }

    void copyStr(char* o, size_t n, const std::string& s)
    {
        size_t l = std::min(n-1, s.size());
        memcpy(o, s.data(), l);
        o[l] = 0;
    }

    /** What is printed may be of any bytes, but the output is text */
    std::string printable(const std::string& s)
    {
        std::string o;
        for (unsigned char c : s)
            if (c == '\n' || (c >= 32 && c <= 126))
                o += c;
            else
            {
                char b[8];
                snprintf(b, sizeof b, "\\x%02x", c);
                o += b;
            }
        return o;
    }

    std::string firstLines(const std::string& s, int n)
    {
        size_t p = 0;
        while (n-- && p != std::string::npos)
            p = s.find('\n', p ? p+1 : 0);
        return s.substr(0, p);
    }

    /** Runs one case.  True if it passed. */
    bool runOnce(const Test& t, Gen& g, std::string& oMsg)
    {
        try
        {
            t.fn(g);
            return true;
        }
        catch (const Fail& f)
        {
            oMsg = f.what();
        }
        catch (const std::exception& e)
        {
            oMsg = std::string("unexpected exception: ")
                + firstLines(e.what(), 1);
        }
        catch (...)
        {
            oMsg = "unexpected exception";
        }
        return false;
    }

    /**
     * What the case left allocated, not counting the generator: run it again
     * from its choices and measure.
     */
    long residue(const Test& t, const std::vector<uint64_t>& c)
    {
        gLive = 0;
        gBytes = 0;
        gCount = true;
        {
            Gen g(c.data(), c.size());
            std::string msg;
            runOnce(t, g, msg);
        }
        gCount = false;
        return gLive;
    }

    bool leaks(const Test& t, const std::vector<uint64_t>& c)
    {
        // Caches and statics grow at most a few times
        int grew = 0;
        for (int i=0; i<6; i++)
            if (residue(t, c) > 0)
                ++grew;
            else
                return false;
        return grew == 6;
    }

    // --- Worker ------------------------------------------------------------

    struct Config
    {
        uint64_t seed;
        std::string tier;
        double mult;
        std::string replay;
        std::string evidence;
        std::string out;
    };

    void publish(const Gen& g)
    {
        const std::vector<uint64_t>& c = g.choices();
        size_t n = std::min(c.size(), cMaxChoice);
        memcpy(gShared->choice, c.data(), n * sizeof(uint64_t));
        gShared->nChoice = n;
    }

    long cases(const Test& t, const Config& cfg)
    {
        long n = (long)(t.n * cfg.mult);
        return n < 1 ? 1 : n;
    }

    /**
     * The share of worker w of all tests; stops at a failure.
     * Up to and including case iLast of test iTest if iTest >= 0.
     */
    void worker(const std::vector<Test>& tests, const Config& cfg, int w,
                int iTest, long iLast)
    {
        std::map<std::string, long> labels;
        std::unordered_set<uint64_t> seen;
        gShared->nSample = 0;
        for (size_t ti=0; ti<tests.size(); ti++)
        {
            if (iTest >= 0 && (int)ti > iTest)
                break;
            const Test& t = tests[ti];
            long n = cases(t, cfg);
            gShared->test = (int)ti;
            int samples = 0;
            for (long i=w; i<n; i+=cWorkers)
            {
                if (iTest == (int)ti && i > iLast)
                    break;
                gShared->index = i;
                setTimer(cHangSec);
                uint64_t seed = caseSeed(cfg.seed, t, i);
                int size = caseSize(i, n);
                long live;
                std::vector<uint64_t> choice;
                bool ok;
                {
                    gLive = 0;
                    gBytes = 0;
                    gCount = true;
                    Gen g(seed, size);
                    std::string msg;
                    ok = runOnce(t, g, msg);
                    gCount = false;
                    if (!ok)
                    {
                        publish(g);
                        copyStr(gShared->msg, cMsg, msg);
                        copyStr(gShared->trace, cTrace, g.trace.str());
                        gShared->failed = 1;
                        _exit(FAILED);
                    }
                    choice = g.choices();
                    ++gShared->evaluations;
                    for (auto& l : g.labels)
                        ++labels[std::string(t.name) + ":" + l];
                    if (g.isNontrivial())
                    {
                        std::string tr = g.trace.str();
                        uint64_t h = fnv(tr, fnv(t.name));
                        if (seen.insert(h).second)
                        {
                            if (gShared->nHash < cHash)
                                gShared->hash[gShared->nHash++] = h;
                            if (w < 2 && samples == 0 && i > 20*cWorkers
                                && gShared->nSample < 4 && !tr.empty())
                            {
                                ++samples;
                                copyStr(gShared->sample[gShared->nSample++],
                                        4096, std::string(t.name) + ": " + tr);
                            }
                        }
                        ++gShared->nontrivial;
                    }
                    gCount = true;
                }
                gCount = false;
                live = gLive;
                // Labels, hashes and choice are allocated while not counting,
                // and the generator is balanced, so what is left is the case's
                if (t.leaks && live > 0)
                {
                    setTimer(cHangSec * 3);
                    if (leaks(t, choice))
                    {
                        size_t m = std::min(choice.size(), cMaxChoice);
                        memcpy(gShared->choice, choice.data(), m * 8);
                        gShared->nChoice = m;
                        copyStr(gShared->msg, cMsg,
                                "memory leak: every run of the case leaves "
                                "allocations behind");
                        gShared->failed = 1;
                        _exit(FAILED);
                    }
                }
            }
        }
        setTimer(0);
        std::string s;
        for (auto& l : labels)
            s += l.first + "\t" + std::to_string(l.second) + "\n";
        copyStr(gShared->labels, cTrace, s);
        gShared->done = 1;
    }

    // --- Parent ------------------------------------------------------------

    Shared* newShared()
    {
        void* p = mmap(0, sizeof(Shared), PROT_READ|PROT_WRITE,
                       MAP_SHARED|MAP_ANONYMOUS, -1, 0);
        if (p == MAP_FAILED)
        {
            perror("mmap");
            _exit(3);
        }
        return (Shared*)p;
    }

    void freeShared(Shared* p)
    {
        munmap(p, sizeof(Shared));
    }

    std::string slurp(const std::string& f, size_t n = 20000)
    {
        std::ifstream is(f, std::ios::binary);
        std::string s(n, 0);
        is.read(&s[0], n);
        s.resize(is.gcount());
        return s;
    }

    pid_t spawn(Shared* s, const std::string& iErr, const std::string& iDir,
                const std::function<void()>& f)
    {
        fflush(0);
        pid_t pid = fork();
        if (pid < 0)
        {
            perror("fork");
            _exit(3);
        }
        if (pid)
            return pid;
        gShared = s;
        gScratch = iDir;
        std::filesystem::create_directories(iDir);
        if (chdir(iDir.c_str())) {}
        int null = open("/dev/null", O_RDWR);
        dup2(null, 0);
        dup2(null, 1);
        int e = open(iErr.c_str(), O_WRONLY|O_CREAT|O_TRUNC, 0666);
        dup2(e, 2);
        signal(SIGPROF, hangHandler);
        signal(SIGPIPE, SIG_DFL);
        f();
        _exit(OK);
    }

    int await(pid_t p)
    {
        int st;
        while (waitpid(p, &st, 0) < 0) {}
        if (WIFEXITED(st))
            return WEXITSTATUS(st);
        return 200 + WTERMSIG(st);
    }

    struct Outcome
    {
        bool fails;
        std::string msg;
        std::string trace;
    };

    std::string describe(int code, const std::string& err)
    {
        std::string m;
        switch (code)
        {
        case ASAN:
            m = "sanitizer error or crash";
            break;
        case HANG:
            m = "does not terminate";
            break;
        case MEMORY:
            m = "unbounded memory";
            break;
        default:
            m = "process ended unexpectedly, status " + std::to_string(code);
        }
        size_t p = err.find("SUMMARY:");
        if (p != std::string::npos)
            m += ": " + err.substr(p, err.find('\n', p) - p);
        p = err.find("runtime error:");
        if (p != std::string::npos)
            m += ": " + err.substr(p, err.find('\n', p) - p);
        return m;
    }

    int gTrial = 0;

    /** Run one choice vector in a fresh process */
    Outcome trial(const Test& t, const std::vector<uint64_t>& c, double iSec)
    {
        Shared* s = newShared();
        std::string dir = gRoot + "/t" + std::to_string(gTrial++);
        std::string err = dir + ".err";
        pid_t p = spawn(s, err, dir, [&] {
            setTimer(iSec);
            {
                gPublishLive = true;
                Gen g(c.data(), c.size());
                std::string msg;
                // So that a crash is described too
                gLive = gBytes = 0;
                gCount = true;
                bool ok = runOnce(t, g, msg);
                gCount = gPublishLive = false;
                copyStr(gShared->trace, cTrace, g.trace.str());
                if (!ok)
                {
                    copyStr(gShared->msg, cMsg, msg);
                    gShared->failed = 1;
                    _exit(FAILED);
                }
            }
            setTimer(iSec * 3);
            if (t.leaks && leaks(t, c))
            {
                copyStr(gShared->msg, cMsg,
                        "memory leak: every run of the case leaves "
                        "allocations behind");
                gShared->failed = 1;
                _exit(FAILED);
            }
            gShared->done = 1;
        });
        int code = await(p);
        Outcome o;
        o.fails = !(code == 0 && s->done);
        o.trace = s->trace;
        if (o.fails)
            o.msg = s->failed ? std::string(s->msg) : describe(code, slurp(err));
        freeShared(s);
        std::error_code ec;
        std::filesystem::remove_all(dir, ec);
        std::filesystem::remove(err, ec);
        return o;
    }

    std::vector<uint64_t> shrink(const Test& t, std::vector<uint64_t> c,
                                 double iBudget)
    {
        auto t0 = std::chrono::steady_clock::now();
        int tries = 0;
        auto over = [&] {
            std::chrono::duration<double> d =
                std::chrono::steady_clock::now() - t0;
            return d.count() > iBudget || tries > 2500;
        };
        auto attempt = [&](std::vector<uint64_t> d) {
            if (over())
                return false;
            ++tries;
            while (!d.empty() && d.back() == 0)
                d.pop_back();
            if (d == c)
                return false;
            if (!trial(t, d, 4).fails)
                return false;
            c = d;
            return true;
        };
        bool better = true;
        while (better && !over())
        {
            better = false;
            // Truncate
            for (size_t k=c.size()/2; k>0 && !over(); k/=2)
                while (c.size() > k)
                {
                    std::vector<uint64_t> d(c.begin(), c.end()-k);
                    if (!attempt(d))
                        break;
                    better = true;
                }
            // Delete spans
            for (size_t k=std::min<size_t>(32, c.size()/2+1); k>0; k=k*2/3)
            {
                for (size_t i=0; i+k<=c.size() && !over(); )
                {
                    std::vector<uint64_t> d(c);
                    d.erase(d.begin()+i, d.begin()+i+k);
                    if (attempt(d))
                        better = true;
                    else
                        i += (k > 4) ? k/2 : 1;
                }
            }
            // Reduce values
            for (size_t i=0; i<c.size() && !over(); i++)
            {
                if (c[i] == 0)
                    continue;
                std::vector<uint64_t> d(c);
                d[i] = 0;
                if (attempt(d))
                {
                    better = true;
                    continue;
                }
                uint64_t lo = 0;
                while (i < c.size() && c[i] > lo+1 && !over())
                {
                    uint64_t mid = lo + (c[i]-lo)/2;
                    d = c;
                    d[i] = mid;
                    if (attempt(d))
                        better = true;
                    else
                        lo = mid;
                }
            }
        }
        return c;
    }

    std::string json(const std::string& s)
    {
        std::string o = "\"";
        for (unsigned char c : s)
        {
            char b[8];
            if (c == '"' || c == '\\')
            {
                o += '\\';
                o += c;
            }
            else if (c == '\n')
                o += "\\n";
            else if (c < 32 || c > 126)
            {
                snprintf(b, sizeof b, "\\u%04x", c);
                o += b;
            }
            else
                o += c;
        }
        return o + "\"";
    }

    struct Totals
    {
        long evaluations = 0;
        long nontrivial = 0;
        std::unordered_set<uint64_t> distinct;
        std::map<std::string, long> labels;
        std::vector<std::string> samples;
    };

    std::map<std::string, std::string>& findings()
    {
        // known: property=C05 id=some-name what fails
        static std::map<std::string, std::string> f;
        static bool read = false;
        if (!read)
        {
            read = true;
            std::ifstream is(VERIF_HARNESS "/../known_findings.txt");
            std::string l, a, b, c;
            while (std::getline(is, l))
            {
                std::istringstream ls(l);
                if (ls >> a >> b >> c && a == "known:" && c.find("id=") == 0)
                {
                    std::getline(ls, l);
                    f[b.substr(9) + "/" + c.substr(3)] = b + l;
                }
            }
        }
        return f;
    }

    void writeEvidence(const Config& cfg, const std::string& prop,
                       const std::vector<Test>& tests, const Totals& tot,
                       double wall, int violations)
    {
        if (cfg.evidence.empty())
            return;
        std::ofstream o(cfg.evidence);
        o << "{\n \"property\": " << json(prop)
          << ",\n \"tier\": " << json(cfg.tier)
          << ",\n \"seed\": " << cfg.seed
          << ",\n \"level\": \"exploration\",\n \"coverage\": {\n"
          << "  \"evaluations\": " << tot.evaluations
          << ",\n  \"nontrivial\": " << tot.nontrivial
          << ",\n  \"distinct_nontrivial\": " << tot.distinct.size();
        std::string rule = "Cases are generated by recorded bounded random "
            "choices, seeded by VERIF_SEED, the property and the case number; "
            "distinct means a different textual trace of the case.";
        for (auto& t : tests)
            rule += std::string(" [") + t.name + "] " + t.rule;
        o << ",\n  \"rule\": " << json(rule) << ",\n  \"checks\": {";
        bool first = true;
        for (auto& t : tests)
        {
            o << (first ? "\n   " : ",\n   ") << json(t.name) << ": "
              << cases(t, cfg);
            first = false;
        }
        o << "\n  },\n  \"labels\": {";
        first = true;
        for (auto& l : tot.labels)
        {
            o << (first ? "\n   " : ",\n   ") << json(l.first) << ": "
              << l.second;
            first = false;
        }
        o << "\n  },\n  \"samples\": [";
        first = true;
        for (auto& s : tot.samples)
        {
            o << (first ? "\n   " : ",\n   ") << json(s);
            first = false;
        }
        o << "\n  ]\n },\n \"wall_s\": " << wall
          << ",\n \"violations\": " << violations << "\n}\n";
    }

    std::vector<Test> select(const std::string& prop)
    {
        std::vector<Test> r;
        for (auto& t : registry())
            if (prop == t.prop)
                r.push_back(t);
        return r;
    }

    int replay(const std::string& file)
    {
        std::ifstream is(file);
        std::string word, prop, name, mode;
        std::vector<uint64_t> c;
        long last = 0;
        int w = 0;
        uint64_t seed = 1;
        double mult = 1;
        while (is >> word)
        {
            if (word == "property")
                is >> prop;
            else if (word == "check")
                is >> name;
            else if (word == "mode")
                is >> mode;
            else if (word == "sequence")
                is >> w >> last >> seed >> mult;
            else if (word == "choices")
            {
                size_t n;
                is >> n;
                c.resize(n);
                for (auto& x : c)
                    is >> x;
            }
            else if (word == "--")
                break;
        }
        std::vector<Test> tests = select(prop);
        for (size_t i=0; i<tests.size(); i++)
            if (name == tests[i].name)
            {
                if (mode == "sequence")
                {
                    Config cfg;
                    cfg.seed = seed;
                    cfg.mult = mult;
                    Shared* s = newShared();
                    pid_t p = spawn(s, gRoot + "/replay.err",
                                    gRoot + "/replay", [&] {
                        worker(tests, cfg, w, (int)i, last);
                    });
                    int code = await(p);
                    if (code == 0 && s->done)
                    {
                        printf("replay: holds\n");
                        return 0;
                    }
                    printf("replay: %s\n%s\n", printable(
                               s->failed ? std::string(s->msg) : describe(
                                   code, slurp(gRoot + "/replay.err"))).c_str(),
                           printable(s->trace).c_str());
                    return 1;
                }
                Outcome o = trial(tests[i], c, cHangSec);
                printf("%s\nreplay: %s\n", printable(o.trace).c_str(),
                       o.fails ? printable(o.msg).c_str() : "holds");
                return o.fails ? 1 : 0;
            }
        printf("replay: no such check\n");
        return 2;
    }

    int check(const std::string& prop, const Config& cfg)
    {
        auto t0 = std::chrono::steady_clock::now();
        std::vector<Test> tests = select(prop);
        if (tests.empty())
        {
            fprintf(stderr, "no checks for %s\n", prop.c_str());
            return 2;
        }

        findings();

        // Let the workers loose
        Shared* sh[cWorkers];
        pid_t pid[cWorkers];
        for (int w=0; w<cWorkers; w++)
        {
            sh[w] = newShared();
            std::string d = gRoot + "/w" + std::to_string(w);
            pid[w] = spawn(sh[w], d + ".err", d, [&] {
                worker(tests, cfg, w, -1, 0);
            });
        }
        int code[cWorkers];
        for (int w=0; w<cWorkers; w++)
            code[w] = await(pid[w]);

        // Collect
        Totals tot;
        struct Bad { int test; long index; int w; };
        std::vector<Bad> bad;
        for (int w=0; w<cWorkers; w++)
        {
            Shared* s = sh[w];
            tot.evaluations += s->evaluations;
            tot.nontrivial += s->nontrivial;
            for (size_t i=0; i<s->nHash; i++)
                tot.distinct.insert(s->hash[i]);
            std::istringstream is(s->labels);
            std::string l;
            while (std::getline(is, l))
            {
                size_t p = l.find('\t');
                if (p != std::string::npos)
                    tot.labels[l.substr(0, p)] += atol(l.c_str()+p+1);
            }
            for (int i=0; i<s->nSample; i++)
                tot.samples.push_back(s->sample[i]);
            if (code[w] != 0 || !s->done)
                bad.push_back({s->test, s->index, w});
        }
        std::sort(bad.begin(), bad.end(), [](const Bad& a, const Bad& b) {
            return std::tie(a.test, a.index) < std::tie(b.test, b.index);
        });

        // Examine failures until one is confirmed
        bool violated = false;
        int nCrash = 0;
        for (auto& b : bad)
        {
            const Test& t = tests[b.test];
            Shared* s = sh[b.w];
            std::vector<uint64_t> c;
            if (s->failed)
                c.assign(s->choice, s->choice + s->nChoice);
            else
            {
                // It crashed, so the choices were not published; regenerate
                // them in a child that publishes every choice as it's drawn
                Shared* p = newShared();
                uint64_t seed = caseSeed(cfg.seed, t, b.index);
                int size = caseSize(b.index, cases(t, cfg));
                std::string d = gRoot + "/r" + std::to_string(nCrash++);
                pid_t q = spawn(p, d + ".err", d, [&] {
                    setTimer(cHangSec);
                    gPublishLive = true;
                    Gen g(seed, size);
                    std::string msg;
                    runOnce(t, g, msg);
                });
                await(q);
                c.assign(p->choice, p->choice + p->nChoice);
                freeShared(p);
            }
            std::string how = s->failed ? std::string(s->msg) : describe(
                code[b.w], slurp(gRoot + "/w" + std::to_string(b.w) + ".err"));
            fprintf(stderr, "%s/%s: case %ld: %s\n", t.prop, t.name, b.index,
                    printable(how).c_str());

            bool sequence = false;
            Outcome o = trial(t, c, cHangSec);
            if (o.fails)
            {
                c = shrink(t, c, cfg.tier == "thorough" ? 120 : 45);
                int again = 0;
                for (int i=0; i<3; i++)
                {
                    o = trial(t, c, cHangSec);
                    again += o.fails;
                }
                if (again != 3)
                {
                    fprintf(stderr, "%s/%s: not reproducible after shrinking; "
                            "trying the sequence\n", t.prop, t.name);
                    o.fails = false;
                }
            }
            if (!o.fails)
            {
                // Perhaps it needs what went before
                int again = 0;
                for (int i=0; i<3; i++)
                {
                    Shared* p = newShared();
                    std::string d = gRoot + "/s" + std::to_string(b.w);
                    pid_t q = spawn(p, d + ".err", d, [&] {
                        worker(tests, cfg, b.w, b.test, b.index);
                    });
                    int k = await(q);
                    if (k != 0 || !p->done)
                        ++again;
                    freeShared(p);
                }
                if (again != 3)
                {
                    fprintf(stderr, "%s/%s: not reproducible; ignored\n",
                            t.prop, t.name);
                    continue;
                }
                sequence = true;
                o.msg = how + " (depends on the preceding cases)";
                o.trace = s->trace;
            }

            // Confirmed
            std::filesystem::create_directories(cfg.out);
            std::string path = cfg.out + "/" + t.prop + "-" + t.name
                + ".replay";
            std::ofstream os(path);
            os << "property " << t.prop << "\ncheck " << t.name << "\nmode "
               << (sequence ? "sequence" : "choices") << "\nsequence " << b.w
               << " " << b.index << " " << cfg.seed << " " << cfg.mult
               << "\nchoices " << c.size();
            for (auto x : c)
                os << " " << x;
            o.msg = printable(o.msg);
            o.trace = printable(o.trace);
            os << "\n-- " << o.msg << "\n" << o.trace << "\n";
            os.close();
            printf("%s/%s: %s\n%s\n", t.prop, t.name, o.msg.c_str(),
                   o.trace.c_str());
            printf("VIOLATION property=%s replay=%s\n", t.prop, path.c_str());
            fflush(stdout);
            violated = true;
            break;
        }

        for (auto& f : findings())
        {
            std::string id = f.first.substr(f.first.find('/') + 1);
            for (auto& l : tot.labels)
                if (f.first.find(prop + "/") == 0
                    && l.first.find(":known " + id) != std::string::npos)
                {
                    printf("KNOWN-FINDING: %s\n", f.second.c_str());
                    break;
                }
        }
        fflush(stdout);

        std::chrono::duration<double> d =
            std::chrono::steady_clock::now() - t0;
        writeEvidence(cfg, prop, tests, tot, d.count(), violated);
        fprintf(stderr, "%s: %ld cases, %zu distinct non-trivial, %.1f s\n",
                prop.c_str(), tot.evaluations, tot.distinct.size(), d.count());
        for (int w=0; w<cWorkers; w++)
            freeShared(sh[w]);
        return violated ? 1 : 0;
    }

}

// --- Gen ---------------------------------------------------------------------

namespace pbt
{
    bool known(Gen& g, const char* prop, const char* id)
    {
        if (!findings().count(std::string(prop) + "/" + id))
            return false;
        g.labels.insert(std::string("known ") + id);
        return true;
    }

    Gen::Gen(uint64_t iSeed, int iSize)
        : size(iSize), mReplay(false), mIn(0), mInN(0), mPos(0),
          mNontrivial(false)
    {
        mState[0] = iSeed;
        mState[1] = 0;
        record(iSize - 1);
    }

    Gen::Gen(const uint64_t* iChoice, size_t iN)
        : size(1), mReplay(true), mIn(iChoice), mInN(iN), mPos(0),
          mNontrivial(false)
    {
        size = 1 + (int)draw(100);
    }

    void Gen::record(uint64_t v)
    {
        mChoice.push_back(v);
        if (!gPublishLive || !gShared)
            return;
        // In case this is the last we hear of it
        if (gShared->nChoice < cMaxChoice)
            gShared->choice[gShared->nChoice++] = v;
        copyStr(gShared->trace, cTrace, trace.str());
    }

    uint64_t Gen::draw(uint64_t n)
    {
        if (n == 0)
            n = 1;
        uint64_t v;
        if (mReplay)
        {
            v = mPos < mInN ? mIn[mPos] : 0;
            ++mPos;
            if (v >= n)
                v = n-1;
        }
        else
            v = splitmix(mState[0]) % n;
        record(v);
        return v;
    }

    int Gen::weighted(std::initializer_list<int> w)
    {
        int sum = 0;
        for (int x : w)
            sum += x;
        int d = below(sum);
        int i = 0;
        for (int x : w)
        {
            if (d < x)
                return i;
            d -= x;
            ++i;
        }
        return 0;
    }

    std::vector<Test>& registry()
    {
        static std::vector<Test> r;
        return r;
    }

    const std::string& scratch()
    {
        return gScratch;
    }

    void fail(const std::string& s)
    {
        throw Fail(s);
    }

    std::string quote(const std::string& s)
    {
        std::string o = "\"";
        for (unsigned char c : s)
        {
            char b[8];
            if (c == '"' || c == '\\')
            {
                o += '\\';
                o += c;
            }
            else if (c == '\n')
                o += "\\n";
            else if (c < 32 || c > 126)
            {
                snprintf(b, sizeof b, "\\x%02x", c);
                o += b;
            }
            else
                o += c;
        }
        return o + "\"";
    }

    int main(int argc, char** argv)
    {
        Config cfg;
        cfg.seed = 1;
        if (const char* s = getenv("VERIF_SEED"))
            cfg.seed = strtoull(s, 0, 10);
        cfg.tier = "quick";
        if (const char* s = getenv("VERIF_TIER"))
            if (*s)
                cfg.tier = s;
        cfg.mult = 0;
        std::string prop;
        for (int i=1; i<argc; i++)
        {
            std::string a = argv[i];
            std::string v = i+1 < argc ? argv[i+1] : "";
            if (a == "--replay")
                cfg.replay = v, ++i;
            else if (a == "--evidence")
                cfg.evidence = v, ++i;
            else if (a == "--out")
                cfg.out = v, ++i;
            else if (a == "--tier")
                cfg.tier = v, ++i;
            else if (a == "--seed")
                cfg.seed = strtoull(v.c_str(), 0, 10), ++i;
            else if (a == "--mult")
                cfg.mult = atof(v.c_str()), ++i;
            else if (a == "--list")
            {
                for (auto& t : registry())
                    printf("%s %s %d\n", t.prop, t.name, t.n);
                return 0;
            }
            else
                prop = a;
        }
        if (cfg.tier != "thorough")
            cfg.tier = "quick";
        if (cfg.mult <= 0)
            cfg.mult = cfg.tier == "thorough" ? 60 : 4;
        if (cfg.out.empty())
            cfg.out = "/verif/build/replays";

        char tmpl[] = "/tmp/pbt-XXXXXX";
        if (!mkdtemp(tmpl))
        {
            perror("mkdtemp");
            return 3;
        }
        gRoot = tmpl;
        gScratch = gRoot;
        __sanitizer_install_malloc_and_free_hooks(mallocHook, freeHook);
        int r = cfg.replay.empty() ? check(prop, cfg) : replay(cfg.replay);
        std::error_code ec;
        std::filesystem::remove_all(gRoot, ec);
        return r;
    }
}

int main(int argc, char** argv)
{
    return pbt::main(argc, argv);
}
