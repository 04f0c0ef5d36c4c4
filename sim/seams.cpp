#include "seams.hpp"
#include <malloc.h>
#include <cstdlib>
#include <cstdio>
#include <cstring>
#include <cerrno>
#include <new>
#include <climits>
#include <dlfcn.h>
#include <execinfo.h>
#include <locale>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <diffpy/EventTicker.hpp>

namespace seam {

AllocPlan g_alloc = {false, 0, 0, 0, 0};
int g_fillbyte = -1;
uint64_t g_padseed = 0;
Heap g_heap = {0, 0};
VirtualTime g_vtime = {false, 0, 0, 0};
static uint64_t vrandom()
{
    uint64_t z = (g_vtime.state += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}
static int64_t vnow()
{
    ++g_vtime.queries;
    g_vtime.ns += 1 + int64_t(vrandom() % 3000000000ULL);
    return g_vtime.ns;
}
void vtime_start(uint64_t seed)
{
    g_vtime.on = true;
    g_vtime.state = seed;
    g_vtime.ns = int64_t(vrandom() % 4000000000000000000ULL);
}

void alloc_arm(long failat, long nfail)
{
    g_alloc.armed = true; g_alloc.seen = 0; g_alloc.fired = 0;
    g_alloc.failat = failat; g_alloc.nfail = nfail;
}
void alloc_disarm() { g_alloc.armed = false; }

CallbackPlan g_cb = {false, 0, 0, 0, 0, ""};
void (*g_yield)(const char*) = 0;
void cb_arm(long failat, long nfail)
{
    g_cb.armed = true; g_cb.seen = 0; g_cb.fired = 0;
    g_cb.failat = failat; g_cb.nfail = nfail; g_cb.lastsite = "";
}
void cb_disarm() { g_cb.armed = false; }
void throwfault(const char* site, long k)
{
    const std::string m = std::string("simulated failure in ") + site;
    switch (k % 5)
    {
        case 1: case 3: throw SimAlienFault{m};
        case 4: throw SimLogicFault(m);
        default: throw SimFault(m);
    }
}

void cbpoint(const char* site)
{
    if (g_cb.armed)
    {
        ++g_cb.seen;
        if (g_cb.failat > 0 && g_cb.seen >= g_cb.failat &&
                g_cb.seen < g_cb.failat + g_cb.nfail)
        {
            ++g_cb.fired;
            g_cb.lastsite = site;
            throwfault(site, g_cb.failat);
        }
    }
    if (g_yield) g_yield(site);
}

bool g_ioarmed = false;
std::vector<IoRule> g_iorules;
std::map<std::string,long> g_iocount;
std::vector<std::string> g_iowatch;
static std::string g_fdpath[1024];
void io_clear() { g_iorules.clear(); }

static char s_assertbuf[1024];
char* g_assertmsg = s_assertbuf;

static bool watched(const char* p)
{
    if (!p) return false;
    for (auto& w : g_iowatch) if (strncmp(p, w.c_str(), w.size()) == 0) return true;
    return false;
}

// Return the rule that applies to this call, or null.
static IoRule* iomatch(const char* what, const char* path)
{
    IoRule* rv = 0;
    for (auto& r : g_iorules)
    {
        if (r.what != what) continue;
        if (!r.sub.empty() && !strstr(path, r.sub.c_str())) continue;
        ++r.seen;
        if (r.seen >= r.at && r.seen < r.at + r.n)
        {
            ++r.fired;
            ++g_iocount[std::string(what) + "." + r.mode];
            if (!rv) rv = &r;
        }
    }
    return rv;
}

struct NoAlloc
{
    bool a;
    NoAlloc() : a(g_alloc.armed) { g_alloc.armed = false; }
    ~NoAlloc() { g_alloc.armed = a; }
};

}   // namespace seam

using namespace seam;

// --- allocator ---------------------------------------------------------------

static const size_t HEAD = 32;
struct HeapTrace { void* bt[16]; int n; bool live; size_t sz; };
static const uint64_t NTRACE = 1 << 20;
static HeapTrace* s_trace = 0;
static uint64_t s_serial = 0;
void heap_trace(bool on)
{
    if (on)
    {
        void* x[2];
        backtrace(x, 2);
        s_serial = 0;
        s_trace = (HeapTrace*) calloc(NTRACE, sizeof(HeapTrace));
        return;
    }
    HeapTrace* t = s_trace;
    s_trace = 0;
    int shown = 0;
    for (uint64_t k = 0; k < NTRACE; ++k)
    {
        if (!t[k].live || ++shown > 20) continue;
        printf("live block of %zu bytes from", t[k].sz);
        for (int j = 2; j < t[k].n; ++j) printf(" %p", t[k].bt[j]);
        printf("\n");
    }
    free(t);
}
static const uint64_t MAGIC = 0x51D5A11EC0FFEE11ULL, TAIL = 0xB0A7E4D0FB10C0DEULL;
static void* sim_new(size_t sz)
{
    if (g_alloc.armed)
    {
        ++g_alloc.seen;
        if (g_alloc.failat > 0 && g_alloc.seen >= g_alloc.failat &&
                g_alloc.seen < g_alloc.failat + g_alloc.nfail)
        {
            ++g_alloc.fired;
            throw std::bad_alloc();
        }
    }
    if (sz > (size_t(1) << 30)) throw std::bad_alloc();
    size_t pad = 0;
    if (g_padseed)
    {
        uint64_t z = (g_padseed += 0x9E3779B97F4A7C15ULL);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        pad = 16 * ((z >> 40) & 7);
    }
    char* p = (char*) malloc(HEAD + sz + pad + sizeof(uint64_t));
    if (!p) throw std::bad_alloc();
    ((uint64_t*) p)[0] = sz;
    ((uint64_t*) p)[1] = MAGIC ^ uint64_t(sz);
    ((uint64_t*) p)[2] = NTRACE;
    if (s_trace && s_serial < NTRACE)
    {
        HeapTrace& t = s_trace[s_serial];
        t.n = backtrace(t.bt, 16);
        t.live = true;
        t.sz = sz;
        ((uint64_t*) p)[2] = s_serial++;
    }
    p += HEAD;
    if (g_fillbyte >= 0) memset(p, g_fillbyte, sz);
    memcpy(p + sz, &TAIL, sizeof TAIL);
    ++g_heap.blocks;
    g_heap.bytes += sz;
    return p;
}
void* operator new(size_t sz) { return sim_new(sz); }
void* operator new[](size_t sz) { return sim_new(sz); }
void* operator new(size_t sz, const std::nothrow_t&) noexcept
{ try { return sim_new(sz); } catch (...) { return 0; } }
void* operator new[](size_t sz, const std::nothrow_t&) noexcept
{ try { return sim_new(sz); } catch (...) { return 0; } }
// released memory is overwritten, so that its later use is not unnoticed
static void sim_delete(void* v)
{
    if (!v) return;
    char* p = (char*) v - HEAD;
    const size_t sz = ((uint64_t*) p)[0];
    const char* bad = 0;
    if (((uint64_t*) p)[1] != (MAGIC ^ uint64_t(sz))) bad = "release of memory that is not allocated";
    else if (memcmp((char*) v + sz, &TAIL, sizeof TAIL)) bad = "write past the end of allocated memory";
    if (bad)
    {
        snprintf(g_assertmsg, 1024, "assert: %s", bad);
        abort();
    }
    --g_heap.blocks;
    g_heap.bytes -= sz;
    ((uint64_t*) p)[1] = 0;
    if (s_trace && ((uint64_t*) p)[2] < NTRACE) s_trace[((uint64_t*) p)[2]].live = false;
    if (g_fillbyte >= 0) memset(v, 0xDF, sz < 4096 ? sz : 4096);
    free(p);
}
void operator delete(void* p) noexcept { sim_delete(p); }
void operator delete[](void* p) noexcept { sim_delete(p); }
void operator delete(void* p, size_t) noexcept { sim_delete(p); }
void operator delete[](void* p, size_t) noexcept { sim_delete(p); }

// --- assertions --------------------------------------------------------------

extern "C" void __assert_fail(const char* expr, const char* file,
        unsigned int line, const char* func) throw()
{
    const char* b = strrchr(file, '/');
    snprintf(g_assertmsg, 1024, "assert: %s (%s)", expr, b ? b + 1 : file);
    abort();
}

// --- file system -------------------------------------------------------------

extern "C" {

static FILE* do_fopen(const char* path, const char* mode, const char* sym)
{
    typedef FILE* (*fn)(const char*, const char*);
    static fn real = (fn) dlsym(RTLD_NEXT, "fopen64");
    if (g_ioarmed && watched(path))
    {
        NoAlloc na;
        if (IoRule* r = iomatch("open", path)) { errno = r->err; return 0; }
    }
    FILE* fp = real(path, mode);
    if (fp)
    {
        NoAlloc na;
        int fd = fileno(fp);
        if (fd >= 0 && fd < 1024) g_fdpath[fd] = (g_ioarmed && watched(path)) ? path : "";
    }
    return fp;
}
FILE* fopen64(const char* path, const char* mode) { return do_fopen(path, mode, "fopen64"); }
FILE* fopen(const char* path, const char* mode) { return do_fopen(path, mode, "fopen"); }

static int do_open(const char* path, int flags, mode_t mode)
{
    if (g_ioarmed && watched(path))
    {
        NoAlloc na;
        if (IoRule* r = iomatch("open", path)) { errno = r->err; return -1; }
    }
    int fd = syscall(SYS_openat, AT_FDCWD, path, flags, mode);
    if (fd >= 0 && fd < 1024)
    {
        NoAlloc na;
        g_fdpath[fd] = (g_ioarmed && watched(path)) ? path : "";
    }
    return fd;
}
int open(const char* path, int flags, ...)
{
    va_list ap; va_start(ap, flags);
    mode_t m = va_arg(ap, int);
    va_end(ap);
    return do_open(path, flags, m);
}
int open64(const char* path, int flags, ...)
{
    va_list ap; va_start(ap, flags);
    mode_t m = va_arg(ap, int);
    va_end(ap);
    return do_open(path, flags | O_LARGEFILE, m);
}

ssize_t read(int fd, void* buf, size_t n)
{
    if (g_ioarmed && fd >= 0 && fd < 1024 && !g_fdpath[fd].empty())
    {
        NoAlloc na;
        if (IoRule* r = iomatch("read", g_fdpath[fd].c_str()))
        {
            if (r->mode == "eof") return 0;
            if (r->mode == "short") { if (n > 7) n = 7; }
            else { errno = r->err; return -1; }
        }
    }
    return syscall(SYS_read, fd, buf, n);
}

int stat(const char* path, struct stat* sb)
{
    if (g_ioarmed && watched(path))
    {
        NoAlloc na;
        if (IoRule* r = iomatch("stat", path)) { errno = r->err; return -1; }
    }
    return syscall(SYS_newfstatat, AT_FDCWD, path, sb, 0);
}

char* realpath(const char* path, char* out)
{
    typedef char* (*fn)(const char*, char*);
    static fn real = (fn) dlvsym(RTLD_NEXT, "realpath", "GLIBC_2.3");
    if (!real) real = (fn) dlsym(RTLD_NEXT, "realpath");
    if (g_ioarmed && watched(path))
    {
        NoAlloc na;
        if (IoRule* r = iomatch("realpath", path)) { errno = r->err; return 0; }
    }
    return real(path, out);
}
char* __realpath_chk(const char* path, char* out, size_t) { return realpath(path, out); }

}   // extern "C"

// --- clocks and randomness -----------------------------------------------------

#include <ctime>
#include <random>
#include <sys/random.h>
#include <sys/time.h>

extern "C" {

int clock_gettime(clockid_t id, struct timespec* tp) noexcept
{
    if (!seam::g_vtime.on) return int(syscall(SYS_clock_gettime, id, tp));
    int64_t t = seam::vnow();
    tp->tv_sec = t / 1000000000; tp->tv_nsec = t % 1000000000;
    return 0;
}

time_t time(time_t* t) noexcept
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}

int gettimeofday(struct timeval* __restrict tv, void* __restrict) noexcept
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
    return 0;
}

clock_t clock() noexcept
{
    struct timespec ts;
    clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts);
    return ts.tv_sec * CLOCKS_PER_SEC + ts.tv_nsec / (1000000000 / CLOCKS_PER_SEC);
}

ssize_t getrandom(void* buf, size_t n, unsigned flags)
{
    if (!seam::g_vtime.on) return syscall(SYS_getrandom, buf, n, flags);
    for (size_t i = 0; i < n; ++i) static_cast<char*>(buf)[i] = char(seam::vrandom());
    return n;
}

int getentropy(void* buf, size_t n)
{
    return getrandom(buf, n, 0) == ssize_t(n) ? 0 : -1;
}

int rand() noexcept
{
    return int(seam::vrandom() >> 33);
}

pid_t getpid() noexcept
{
    return seam::g_vtime.on ? pid_t(2 + seam::g_vtime.state % 30000) : pid_t(syscall(SYS_getpid));
}

}   // extern "C"

unsigned std::random_device::_M_getval()
{
    return unsigned(seam::vrandom());
}

// --- event clock ---------------------------------------------------------------

namespace seam {
#ifdef SIM_HAVE_GTICK
// explicit instantiation may name a private member
template <class Tag, typename Tag::type P> struct Rob
{ friend typename Tag::type robget(Tag) { return P; } };
struct GtickTag
{ typedef diffpy::eventticker::EventTicker::value_type* type; friend type robget(GtickTag); };
template struct Rob<GtickTag, &diffpy::eventticker::EventTicker::gtick>;
bool clock_accessible() { return true; }
tick_t clock_get() { return *robget(GtickTag()); }
void clock_set(tick_t t) { *robget(GtickTag()) = t; }
#else
bool clock_accessible() { return false; }
tick_t clock_get()
{
    diffpy::eventticker::EventTicker t;
    t.click();
    return t.value();
}
void clock_set(tick_t t)
{
    // the clock can only be advanced
    if (t.second - clock_get().second > 1000000) return;
    while (clock_get() < t) { }
}
#endif
}

namespace std {
void __glibcxx_assert_fail(const char* file, int line, const char* func, const char* cond) noexcept;
void __glibcxx_assert_fail(const char* file, int line, const char* func, const char* cond) noexcept
{
    const char* b = file ? strrchr(file, '/') : 0;
    snprintf(seam::g_assertmsg, 1024, "assert: libstdc++ %s (%s)",
            cond ? cond : "?", b ? b + 1 : "?");
    abort();
}
}

namespace seam {
namespace {
struct NumFormat : public std::numpunct<char>
{
    char dp, ts;
    std::string gr;
    NumFormat(char d, char t, const char* g) : dp(d), ts(t), gr(g) { }
    char do_decimal_point() const { return dp; }
    char do_thousands_sep() const { return ts; }
    std::string do_grouping() const { return gr; }
};
}

void set_locale(int k)
{
    static const struct { char dp, ts; const char* gr; } fmt[NLOCALE] = {{'.', ',', ""}, {',', '.', "\3"},
        {',', '.', ""}, {',', ' ', "\3"}, {'.', ',', "\3\2"}, {'\'', '.', "\1"}};
    const std::locale c = std::locale::classic();
    if (k <= 0 || k >= NLOCALE) std::locale::global(c);
    else std::locale::global(std::locale(c, new NumFormat(fmt[k].dp, fmt[k].ts, fmt[k].gr)));
}

}   // namespace seam
