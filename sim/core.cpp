#include "core.hpp"
#include <cstdlib>
#include <cxxabi.h>
#include <sstream>
namespace sim {
using namespace std;

static string enc(const string& s)
{
    string rv;
    for (unsigned char c : s)
    {
        if (isalnum(c) || c == '-' || c == '+' || c == '.' || c == '_' || c == '/') rv += c;
        else { char b[8]; snprintf(b, sizeof b, "%%%02x", c); rv += b; }
    }
    return rv;
}

static string dec(const string& s)
{
    string rv;
    for (size_t k = 0; k < s.size(); ++k)
    {
        if (s[k] == '%' && k + 2 < s.size())
        {
            rv += char(strtol(s.substr(k + 1, 2).c_str(), 0, 16));
            k += 2;
        }
        else rv += s[k];
    }
    return rv;
}

string Op::str() const
{
    string rv = n;
    if (!i.empty())
    {
        rv += " i=";
        for (size_t k = 0; k < i.size(); ++k) rv += (k ? "," : "") + to_string(i[k]);
    }
    if (!d.empty())
    {
        rv += " d=";
        for (size_t k = 0; k < d.size(); ++k)
        {
            char b[64]; snprintf(b, sizeof b, "%.17g", d[k]);
            rv += (k ? "," : "") + string(b);
        }
    }
    if (!s.empty())
    {
        rv += " s=";
        for (size_t k = 0; k < s.size(); ++k) rv += (k ? "|" : "") + enc(s[k]);
    }
    return rv;
}

static vector<string> split(const string& s, char sep)
{
    vector<string> rv;
    size_t p = 0;
    while (true)
    {
        size_t q = s.find(sep, p);
        rv.push_back(s.substr(p, q == string::npos ? string::npos : q - p));
        if (q == string::npos) break;
        p = q + 1;
    }
    return rv;
}

bool Op::parse(const string& line, Op& op)
{
    op = Op();
    istringstream is(line);
    if (!(is >> op.n)) return false;
    string w;
    while (is >> w)
    {
        if (w.compare(0, 2, "i=") == 0)
            for (auto& x : split(w.substr(2), ',')) op.i.push_back(atol(x.c_str()));
        else if (w.compare(0, 2, "d=") == 0)
            for (auto& x : split(w.substr(2), ',')) op.d.push_back(strtod(x.c_str(), 0));
        else if (w.compare(0, 2, "s=") == 0)
            for (auto& x : split(w.substr(2), '|')) op.s.push_back(dec(x));
    }
    return true;
}

string Scenario::str() const
{
    ostringstream os;
    os << "property " << prop << "\nseed " << seed << "\n";
    for (auto& kv : cfg) os << "cfg " << kv.first << " " << kv.second << "\n";
    for (auto& o : ops) os << "op " << o.str() << "\n";
    return os.str();
}

Scenario Scenario::parse(const string& text)
{
    Scenario sc;
    istringstream is(text);
    string line;
    while (getline(is, line))
    {
        if (line.empty() || line[0] == '#') continue;
        istringstream ls(line);
        string k; ls >> k;
        if (k == "property") ls >> sc.prop;
        else if (k == "seed") ls >> sc.seed;
        else if (k == "cfg") { string n; long v; ls >> n >> v; sc.cfg[n] = v; }
        else if (k == "op")
        {
            Op op;
            if (Op::parse(line.substr(3), op)) sc.ops.push_back(op);
        }
    }
    return sc;
}

string strprintf(const char* fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    char buf[2048];
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    return buf;
}

void Ctx::log(const char* fmt, ...)
{
    char buf[2048];
    va_list ap; va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    h = mix64(h ^ hashstr(buf));
    ++nlog;
    if (verbose) printf("  %5ld %s\n", nlog, buf);
}

void Ctx::logd(const string& name, const vector<double>& v)
{
    uint64_t g = hashstr(name);
    for (double x : v) { uint64_t b; memcpy(&b, &x, 8); g = mix64(g ^ b); }
    log("obs %s n=%zu %016llx", name.c_str(), v.size(), (unsigned long long) g);
}

void Ctx::logs(const string& name, const vector<string>& v)
{
    uint64_t g = hashstr(name);
    for (auto& x : v) g = mix64(g ^ hashstr(x));
    log("obs %s n=%zu %016llx", name.c_str(), v.size(), (unsigned long long) g);
}

void Ctx::fail(const string& cls, const char* fmt, ...)
{
    char buf[4096];
    va_list ap; va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    log("VIOLATION %s: %s", cls.c_str(), buf);
    throw Viol{cls, buf};
}

map<string, Property>& properties()
{
    static map<string, Property> p;
    return p;
}

string demangle(const char* name)
{
    int st = 0;
    char* p = abi::__cxa_demangle(name, 0, 0, &st);
    string rv = (st == 0 && p) ? p : name;
    free(p);
    return rv;
}

}   // namespace sim
