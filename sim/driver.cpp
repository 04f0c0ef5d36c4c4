// Driver: seeded search over simulated runs, minimisation, replay.
//   vsim search --prop ID --seed S --runs N --time T --jobs J --tier quick|thorough --out DIR
//   vsim replay FILE [-v]
//   vsim show --prop ID --seed S --idx K
#include "core.hpp"
#include "seams.hpp"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <exception>
#include <fstream>
#include <iostream>
#include <sstream>
#include <unordered_set>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace sim;
using namespace std;

namespace {

const int MAXC = 96;
const int MAXF = 4096;
struct RunResult
{
    int done;               // 1 when the run reached its end
    int viol;
    char cls[256];
    char detail[3000];
    char assertmsg[1024];
    uint64_t hash;
    long nlog;
    int nc;
    struct { char name[48]; long v; } c[MAXC];
    int nf;
    uint64_t f[MAXF];
};

struct Shared
{
    atomic<long> next;
    atomic<int> stop;
};

Shared* g_shared;
bool g_thorough = false;
double g_cpulimit = 60;

double now()
{
    return chrono::duration<double>(chrono::steady_clock::now().time_since_epoch()).count();
}

uint64_t runseed(uint64_t base, const string& prop, long idx)
{
    return mix64(mix64(base ^ hashstr(prop)) + uint64_t(idx) * 0x9E3779B97F4A7C15ULL);
}

void setmsg(char* dst, size_t n, const string& s)
{
    strncpy(dst, s.c_str(), n - 1);
    dst[n - 1] = 0;
}

void on_terminate()
{
    seam::g_alloc.armed = false;
    string m = "terminate";
    if (exception_ptr ep = current_exception())
    {
        try { rethrow_exception(ep); }
        catch (const exception& e) { m += string(": ") + demangle(typeid(e).name()); }
        catch (...) { m += ": unknown"; }
    }
    if (!*seam::g_assertmsg) setmsg(seam::g_assertmsg, 1024, m);
    abort();
}

string sanitize(string s)
{
    for (char& c : s) if (c == '\n' || c == '\r') c = ' ';
    return s;
}

// Execute one scenario in this process.
void execute(const Property& pr, const Scenario& sc, RunResult* rr, bool verbose)
{
    Ctx ctx;
    ctx.verbose = verbose;
    static const int fills[] = {0xFF, 0x00, 0x5A, 0xFF};
    seam::g_fillbyte = fills[sc.seed & 3];
    seam::vtime_start(sc.seed);
    try { pr.run(sc, ctx); }
    catch (const Viol& v)
    {
        rr->viol = 1;
        setmsg(rr->cls, sizeof rr->cls, sanitize(v.cls));
        setmsg(rr->detail, sizeof rr->detail, sanitize(v.detail));
    }
    catch (const exception& e)
    {
        rr->viol = 1;
        setmsg(rr->cls, sizeof rr->cls, "unexpected-exception:" + demangle(typeid(e).name()));
        setmsg(rr->detail, sizeof rr->detail, sanitize(e.what()));
    }
    catch (const seam::SimAlienFault& e)
    {
        rr->viol = 1;
        setmsg(rr->cls, sizeof rr->cls, "unexpected-exception:SimAlienFault");
        setmsg(rr->detail, sizeof rr->detail, sanitize(e.what()));
    }
    seam::alloc_disarm();
    rr->hash = ctx.h;
    rr->nlog = ctx.nlog;
    rr->nc = 0;
    for (auto& kv : ctx.cnt)
    {
        if (rr->nc >= MAXC) break;
        setmsg(rr->c[rr->nc].name, 48, kv.first);
        rr->c[rr->nc].v = kv.second;
        ++rr->nc;
    }
    rr->nf = 0;
    for (uint64_t f : ctx.feats) { if (rr->nf >= MAXF) break; rr->f[rr->nf++] = f; }
    rr->done = 1;
}

// Run in a forked child; g is called in the child to get the scenario.
void forkrun(const Property& pr, const function<Scenario()>& g, RunResult* rr, bool verbose = false)
{
    memset((void*) rr, 0, offsetof(RunResult, c));
    rr->nc = rr->nf = 0;
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(3); }
    if (pid == 0)
    {
        seam::g_assertmsg = rr->assertmsg;
        rlimit rl = {rlim_t(g_cpulimit), rlim_t(g_cpulimit) + 5};
        setrlimit(RLIMIT_CPU, &rl);
        rlimit core = {0, 0};
        setrlimit(RLIMIT_CORE, &core);
        rlimit as = {rlim_t(6) << 30, rlim_t(6) << 30};
        setrlimit(RLIMIT_AS, &as);
        if (!verbose)
        {
            int fd = open("/dev/null", O_WRONLY);
            dup2(fd, 2);
        }
        set_terminate(on_terminate);
        execute(pr, g(), rr, verbose);
        fflush(stdout);
        _exit(0);
    }
    int st = 0;
    rusage ru;
    while (wait4(pid, &st, 0, &ru) < 0 && errno == EINTR) { }
    static const char* slow = getenv("VSIM_SLOW");
    if (slow && ru.ru_utime.tv_sec >= atol(slow)) fprintf(stderr, "slow: %ld s\n", long(ru.ru_utime.tv_sec));
    if (!rr->done)
    {
        rr->viol = 1;
        if (WIFSIGNALED(st))
        {
            int sg = WTERMSIG(st);
            if (sg == SIGXCPU || sg == SIGKILL)
            {
                setmsg(rr->cls, sizeof rr->cls, "hang");
                setmsg(rr->detail, sizeof rr->detail,
                        strprintf("no end of the run within %g s of CPU time (signal %d)", g_cpulimit, sg));
            }
            else
            {
                string m = rr->assertmsg;
                setmsg(rr->cls, sizeof rr->cls, string("crash:") +
                        (m.empty() ? strsignal(sg) : m.substr(0, 200)));
                setmsg(rr->detail, sizeof rr->detail,
                        strprintf("process died on signal %d (%s) %s", sg, strsignal(sg), m.c_str()));
            }
        }
        else
        {
            setmsg(rr->cls, sizeof rr->cls, "exit");
            setmsg(rr->detail, sizeof rr->detail, strprintf("process exited with status %d", WEXITSTATUS(st)));
        }
        rr->hash = hashstr(rr->cls);
    }
}

template <class T> T* shalloc()
{
    void* p = mmap(0, sizeof(T), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(3); }
    return new (p) T();
}

string arg(int argc, char** argv, const string& k, const string& dflt)
{
    for (int i = 2; i + 1 < argc; ++i) if (k == argv[i]) return argv[i + 1];
    return dflt;
}

struct Found { long idx; string cls, detail; };

void worker(const Property& pr, uint64_t seed, long nruns, long naudit, double tend, FILE* out)
{
    if (pr.prepare) pr.prepare();
    RunResult* rr = shalloc<RunResult>();
    map<string,long> cnt;
    unordered_set<uint64_t> feats, hashes;
    long runs = 0, audited = 0, steps = 0, nviol = 0;
    while (!g_shared->stop)
    {
        if (now() > tend) break;
        long idx = g_shared->next++;
        if (idx >= nruns) break;
        auto g = [&]() { return pr.gen(runseed(seed, pr.id, idx), g_thorough); };
        forkrun(pr, g, rr);
        ++runs;
        if (idx < naudit)
        {
            uint64_t h = rr->hash;
            string cls = rr->cls;
            forkrun(pr, g, rr);
            ++audited;
            if (h != rr->hash || cls != rr->cls)
            {
                fprintf(out, "N %ld %s / %s\n", idx, cls.c_str(), rr->cls);
                g_shared->stop = 1;
            }
        }
        for (int k = 0; k < rr->nc; ++k) cnt[rr->c[k].name] += rr->c[k].v;
        for (int k = 0; k < rr->nf; ++k) feats.insert(rr->f[k]);
        bool nontriv = rr->viol;
        for (int k = 0; k < rr->nc; ++k)
            if (rr->c[k].v > 0 && !strcmp(rr->c[k].name, "nontrivial")) nontriv = true;
        if (nontriv) hashes.insert(rr->hash);
        steps += rr->nlog;
        if (rr->viol)
        {
            fprintf(out, "V %ld\t%s\t%s\n", idx, rr->cls, rr->detail);
            fflush(out);
            if (++nviol >= (getenv("VSIM_KEEPGOING") ? 50 : 2)) break;
            if (!getenv("VSIM_KEEPGOING")) g_shared->stop = 1;
        }
    }
    fprintf(out, "R %ld %ld %ld\n", runs, audited, steps);
    for (auto& kv : cnt) fprintf(out, "C %s\t%ld\n", kv.first.c_str(), kv.second);
    for (uint64_t f : feats) fprintf(out, "F %llx\n", (unsigned long long) f);
    for (uint64_t f : hashes) fprintf(out, "H %llx\n", (unsigned long long) f);
    fclose(out);
    _exit(0);
}

Scenario minimise(const Property& pr, Scenario sc, const string& cls, RunResult* rr, double budget)
{
    double tend = now() + budget;
    auto fails = [&](const Scenario& s) {
        forkrun(pr, [&]() { return s; }, rr);
        return rr->viol && cls == rr->cls;
    };
    if (!fails(sc)) return sc;
    size_t n = 2;
    while (sc.ops.size() >= 2 && now() < tend)
    {
        size_t chunk = (sc.ops.size() + n - 1) / n;
        bool reduced = false;
        for (size_t start = sc.ops.size(); start > 0 && now() < tend; )
        {
            size_t lo = start > chunk ? start - chunk : 0;
            Scenario t = sc;
            t.ops.erase(t.ops.begin() + lo, t.ops.begin() + start);
            if (!t.ops.empty() && fails(t)) { sc = t; reduced = true; start = min(lo, sc.ops.size()); }
            else start = lo;
        }
        if (reduced) { n = max<size_t>(2, min(n, sc.ops.size())); continue; }
        if (chunk <= 1) break;
        n = min(sc.ops.size(), n * 2);
    }
    return sc;
}

int search(int argc, char** argv)
{
    string prop = arg(argc, argv, "--prop", "");
    auto it = properties().find(prop);
    if (it == properties().end()) { fprintf(stderr, "unknown property %s\n", prop.c_str()); return 3; }
    const Property& pr = it->second;
    uint64_t seed = strtoull(arg(argc, argv, "--seed", "1").c_str(), 0, 10);
    long nruns = atol(arg(argc, argv, "--runs", "1000").c_str());
    double tlimit = atof(arg(argc, argv, "--time", "60").c_str());
    int jobs = atoi(arg(argc, argv, "--jobs", "8").c_str());
    g_thorough = arg(argc, argv, "--tier", "quick") == "thorough";
    string outdir = arg(argc, argv, "--out", ".");
    long naudit = atol(arg(argc, argv, "--audit", "64").c_str());
    double minbudget = atof(arg(argc, argv, "--minimise", "100").c_str());
    g_shared = shalloc<Shared>();
    g_shared->next = 0;
    g_shared->stop = 0;
    double t0 = now();
    vector<FILE*> fin;
    vector<pid_t> pids;
    fflush(stdout);
    for (int j = 0; j < jobs; ++j)
    {
        int pp[2];
        if (pipe(pp)) { perror("pipe"); return 3; }
        pid_t pid = fork();
        if (pid == 0)
        {
            close(pp[0]);
            for (FILE* f : fin) close(fileno(f));
            worker(pr, seed, nruns, naudit, t0 + tlimit, fdopen(pp[1], "w"));
            _exit(0);
        }
        close(pp[1]);
        fin.push_back(fdopen(pp[0], "r"));
        pids.push_back(pid);
    }
    long runs = 0, audited = 0, steps = 0;
    map<string,long> cnt;
    unordered_set<string> feats, hashes;
    vector<Found> found;
    vector<string> nondet;
    int bad = 0;
    char* line = 0;
    size_t cap = 0;
    for (int j = 0; j < jobs; ++j)
    {
        bool gotr = false;
        ssize_t n;
        while ((n = getline(&line, &cap, fin[j])) > 0)
        {
            if (line[n - 1] == '\n') line[n - 1] = 0;
            char* p = line + 2;
            if (line[0] == 'V')
            {
                char* t1 = strchr(p, '\t');
                if (!t1) continue;
                char* t2 = strchr(t1 + 1, '\t');
                *t1 = 0;
                if (t2) *t2 = 0;
                found.push_back({atol(p), t1 + 1, t2 ? t2 + 1 : ""});
            }
            else if (line[0] == 'N') nondet.push_back(p);
            else if (line[0] == 'R')
            {
                long a, b, c;
                if (sscanf(p, "%ld %ld %ld", &a, &b, &c) == 3) { runs += a; audited += b; steps += c; gotr = true; }
            }
            else if (line[0] == 'C')
            {
                char* t = strchr(p, '\t');
                if (t) { *t = 0; cnt[p] += atol(t + 1); }
            }
            else if (line[0] == 'F') feats.insert(p);
            else if (line[0] == 'H') hashes.insert(p);
        }
        fclose(fin[j]);
        int st;
        waitpid(pids[j], &st, 0);
        if (!gotr) bad = 1;
    }
    double wall = now() - t0;
    ofstream os(outdir + "/summary.txt");
    os << "runs " << runs << "\naudited " << audited << "\nsteps " << steps
        << "\nwall " << wall << "\nfeats " << feats.size() << "\nhashes " << hashes.size()
        << "\njobs " << jobs << "\n";
    for (auto& kv : cnt) os << "count " << kv.first << " " << kv.second << "\n";
    if (pr.prepare) pr.prepare();
    RunResult* rr = shalloc<RunResult>();
    // write a few of the executed scenarios as samples
    for (long k = 0; k < 3 && k < runs; ++k)
    {
        Scenario s = pr.gen(runseed(seed, pr.id, k), g_thorough);
        string t = s.str();
        if (t.size() > 3000) t = t.substr(0, 3000) + "...";
        ofstream(outdir + strprintf("/sample%ld.txt", k)) << t;
    }
    if (bad) { fprintf(stderr, "a worker died\n"); return 3; }
    for (auto& s : nondet) fprintf(stderr, "NONDETERMINISM run %s\n", s.c_str());
    sort(found.begin(), found.end(), [](const Found& a, const Found& b) { return a.idx < b.idx; });
    map<string,int> seen;
    int k = 0;
    double tminend = now() + 2 * minbudget;
    for (auto& f : found)
    {
        // at most four candidates per class until one of them repeats exactly
        if (seen[f.cls] < 0 || seen[f.cls] >= 4) continue;
        seen[f.cls]++;
        fprintf(stderr, "run %ld: %s: %s\n", f.idx, f.cls.c_str(), f.detail.c_str());
        Scenario sc = pr.gen(runseed(seed, pr.id, f.idx), g_thorough);
        size_t n0 = sc.ops.size();
        Scenario m = minimise(pr, sc, f.cls, rr, min(minbudget, tminend - now()));
        // gate: two runs of the minimised scenario agree
        uint64_t h1 = 0; string d1;
        auto repeats = [&](const Scenario& s) {
            forkrun(pr, [&]() { return s; }, rr);
            h1 = rr->hash; string c1 = rr->cls; d1 = rr->detail;
            bool v1 = rr->viol;
            forkrun(pr, [&]() { return s; }, rr);
            bool ok = v1 && rr->viol && h1 == rr->hash && c1 == f.cls && c1 == rr->cls;
            if (!ok) fprintf(stderr, "NONDETERMINISM violation of run %ld did not repeat: %s / %s\n",
                    f.idx, c1.c_str(), rr->cls);
            return ok;
        };
        if (!repeats(m))
        {
            m = sc;
            if (!repeats(m)) continue;
        }
        seen[f.cls] = -1;
        string fn = outdir + strprintf("/viol%d.txt", k++);
        ofstream vs(fn);
        vs << "# class " << f.cls << "\n# detail " << d1 << "\n# hash " << hex << h1 << dec
            << "\n# run index " << f.idx << " of seed " << seed << ", minimised from "
            << n0 << " to " << m.ops.size() << " operations\n" << m.str();
        os << "violation " << fn << " " << f.cls << "\n";
        if (k >= 3) break;
    }
    if (k == 0 && (!found.empty() || !nondet.empty())) return 4;
    return k ? 1 : 0;
}

int replay(int argc, char** argv)
{
    ifstream in(argv[2]);
    if (!in) { fprintf(stderr, "cannot read %s\n", argv[2]); return 3; }
    stringstream ss;
    ss << in.rdbuf();
    Scenario sc = Scenario::parse(ss.str());
    auto it = properties().find(sc.prop);
    if (it == properties().end()) { fprintf(stderr, "unknown property\n"); return 3; }
    bool verbose = argc > 3 && string(argv[3]) == "-v";
    if (it->second.prepare) it->second.prepare();
    RunResult* rr = shalloc<RunResult>();
    forkrun(it->second, [&]() { return sc; }, rr, verbose);
    if (rr->viol)
    {
        printf("REPRODUCED class=%s hash=%llx\ndetail: %s\n", rr->cls,
                (unsigned long long) rr->hash, rr->detail);
        return 1;
    }
    printf("OK hash=%llx\n", (unsigned long long) rr->hash);
    return 0;
}

}   // namespace

int main(int argc, char** argv)
{
    // identical addresses in every execution
    int pers = personality(0xffffffff);
    if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("VSIM_REEXEC"))
    {
        setenv("VSIM_REEXEC", "1", 1);
        if (personality(pers | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv);
    }
    string cmd = argc > 1 ? argv[1] : "";
    if (cmd == "search") return search(argc, argv);
    if (cmd == "replay" && argc > 2) return replay(argc, argv);
    if (cmd == "show")
    {
        string prop = arg(argc, argv, "--prop", "");
        if (!properties().count(prop)) return 3;
        uint64_t seed = strtoull(arg(argc, argv, "--seed", "1").c_str(), 0, 10);
        g_thorough = arg(argc, argv, "--tier", "quick") == "thorough";
        cout << properties()[prop].gen(runseed(seed, prop, atol(arg(argc, argv, "--idx", "0").c_str())), g_thorough).str();
        return 0;
    }
    fprintf(stderr, "usage: vsim search|replay|show ...\n");
    return 3;
}
