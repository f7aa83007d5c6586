/* What the checks of modules share */
#ifndef MODULES_H
#define MODULES_H

#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

#include <lube/var.h>
#include <lube/module.h>
#include "pbt.h"

namespace modules
{
    using libube::var;
    using libube::ind;
    namespace lu = libube;

    inline var mk(const std::string& s)
    {
        return var((int)s.size(), s.data());
    }

    /** Everything there is to a var, as text */
    inline std::string canon(const var& v)
    {
        std::ostringstream o;
        o.precision(17);
        if (!v.defined())
            return "nil";
        switch (v.type())
        {
        case lu::TYPE_CHAR: o << "char " << (int)v.get<char>(); return o.str();
        case lu::TYPE_INT: o << v.get<int>(); return o.str();
        case lu::TYPE_LONG: o << v.get<long>() << "l"; return o.str();
        case lu::TYPE_FLOAT: o << v.get<float>() << "f"; return o.str();
        case lu::TYPE_DOUBLE: o << v.get<double>() << "d"; return o.str();
        case lu::TYPE_ARRAY: break;
        default: return "type?";
        }
        if (v.view())
        {
            o << "view(";
            for (int i=0; i<v.dim(); i++)
                o << v.shape(i) << ",";
            o << ")";
        }
        if (v.atype() == lu::TYPE_CHAR)
        {
            if (!v.view() && v.str()[v.size()] != 0)
                return "not terminated";
            return pbt::quote(std::string(v.str(), v.size()));
        }
        bool map = v.atype() == lu::TYPE_PAIR;
        if (!map && v.atype() != lu::TYPE_VAR)
            o << lu::typeStr(v.atype());
        o << (map ? "{" : "[");
        for (int i=0; i<v.size(); i++)
        {
            if (i)
                o << ", ";
            if (map)
                o << canon(v.key(i)) << ": ";
            o << canon(v.at(i));
        }
        o << (map ? "}" : "]");
        return o.str();
    }

    inline void spit(const std::string& name, const std::string& s)
    {
        std::ofstream os(name, std::ofstream::out | std::ofstream::binary);
        os.write(s.data(), s.size());
    }

    inline std::string slurp(const std::string& name)
    {
        std::ifstream is(name, std::ifstream::in | std::ifstream::binary);
        std::ostringstream s;
        s << is.rdbuf();
        return s.str();
    }

    inline std::string in(const char* name)
    {
        return pbt::scratch() + "/" + name;
    }

    /** Modules print things; keep it out of the output of the check */
    struct Quiet
    {
        std::ostringstream sink;
        std::streambuf* was;
        Quiet() { was = std::cout.rdbuf(sink.rdbuf()); }
        ~Quiet() { std::cout.rdbuf(was); }
    };

    template<class F> bool throws(F f)
    {
        try
        {
            f();
        }
        catch (std::exception&)
        {
            return true;
        }
        return false;
    }

    /**
     * A file handler for the duration of a case.  The library stays loaded, so
     * that the cost of that is paid once.
     */
    struct Handler
    {
        lu::filemodule m;
        lu::file& f;
        Handler(const char* type, var arg = lu::nil)
            : m(keep(type)), f(m.create(arg)) {}
        var read(const std::string& name) { return f.read(mk(name)); }
        void write(const std::string& name, var v) { f.write(mk(name), v); }
        static const char* keep(const char* type)
        {
            static std::map<std::string, lu::filemodule*> m;
            lu::filemodule*& p = m[type];
            if (!p)
                p = new lu::filemodule(type);
            return type;
        }
    };

    /** Text without line ends, in up to 4 byte UTF-8 */
    inline std::string line(pbt::Gen& g, int max, const char* extra = "")
    {
        std::string s;
        std::string x = extra;
        for (int n=g.wide(max, 15*max, 100); n>0; n--)
            switch (g.weighted({6, 2, x.empty() ? 0 : 4, 1}))
            {
            case 0: s += (char)('a' + g.below(26)); break;
            case 1: s += ' '; break;
            case 2: s += x[g.below((int)x.size())]; break;
            case 3: s += g.pick<const char*>({"\xc3\xa9", "\xe2\x82\xac",
                                              "\xf0\x9f\x98\x80"}); break;
            }
        return s;
    }

    inline std::string strip(const std::string& s)
    {
        const char* w = " \t\r\n\v\f";
        size_t a = s.find_first_not_of(w);
        if (a == std::string::npos)
            return "";
        return s.substr(a, s.find_last_not_of(w) - a + 1);
    }
}

#endif
