// Seams owned by the simulator: allocator, file-system calls, user callbacks,
// assertion failures, the process-wide event clock.
#ifndef SIM_SEAMS_HPP
#define SIM_SEAMS_HPP
#include <cstddef>
#include <cstdint>
#include <map>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
namespace seam {

// --- allocator -------------------------------------------------------------
// Fault points are counted only while armed.
struct AllocPlan
{
    bool armed;
    long seen;          // throwing allocations seen since arm
    long failat;        // 1-based index of the first failing allocation, 0 none
    long nfail;         // how many consecutive allocations fail
    long fired;
};
extern AllocPlan g_alloc;
extern int g_fillbyte;      // pattern for fresh memory, -1 none
extern uint64_t g_padseed;  // varies the layout of the heap, 0 none
struct Heap { long blocks, bytes; };
extern Heap g_heap;         // what is allocated now
}
void heap_trace(bool on);  // for debugging, prints the blocks that are still in use
namespace seam {
// --- clocks and randomness ---------------------------------------------------
// While on, the system clocks, random numbers of the system and the process id
// come from the simulator.  Time advances by a random step per query.
struct VirtualTime { bool on; int64_t ns; uint64_t state; long queries; };
extern VirtualTime g_vtime;
void vtime_start(uint64_t seed);

void alloc_arm(long failat, long nfail);
void alloc_disarm();

// --- user callbacks --------------------------------------------------------
struct SimFault : public std::runtime_error
{
    SimFault(const std::string& m) : std::runtime_error(m) { }
};
struct SimLogicFault : public std::logic_error
{
    SimLogicFault(const std::string& m) : std::logic_error(m) { }
};
// exceptions of user components, e.g., those of other languages, need not be
// derived from std::exception
struct SimAlienFault
{
    std::string m;
    const char* what() const { return m.c_str(); }
};
// the type of the exception is selected by k
[[noreturn]] void throwfault(const char* site, long k);
struct CallbackPlan
{
    bool armed;
    long seen;
    long failat;        // 1-based
    long nfail;
    long fired;
    const char* lastsite;
};
extern CallbackPlan g_cb;
void cb_arm(long failat, long nfail);
void cb_disarm();
// called by user-supplied components of the simulation
void cbpoint(const char* site);
// scheduler hook for interleaving, called at every callback point
extern void (*g_yield)(const char* site);

// --- file system -----------------------------------------------------------
// Virtual outcome of libc calls on paths below the watched prefix.
struct IoRule
{
    std::string what;   // open, read, stat, realpath
    std::string sub;    // path must contain this substring (empty: any watched)
    long at;            // 1-based matching call counted since the rule was set
    long n;             // number of consecutive affected calls
    int err;            // errno to return, 0: special behavior by mode
    std::string mode;   // error, eof (premature end), short (reads of 1 byte), eintr
    long seen, fired;
};
extern bool g_ioarmed;
extern std::vector<IoRule> g_iorules;
extern std::map<std::string,long> g_iocount;
extern std::vector<std::string> g_iowatch;  // watched path prefixes
void io_clear();
// fd bookkeeping survives io_clear

// --- assertion failures ------------------------------------------------------
extern char* g_assertmsg;     // 1024 bytes, in shared memory while running

// --- global locale -----------------------------------------------------------
// number format of the process: 0 classic, others with different decimal point
// and grouping of digits
const int NLOCALE = 6;
void set_locale(int k);

// --- event clock -------------------------------------------------------------
typedef std::pair<long,long> tick_t;
bool clock_accessible();        // can read and move back the global clock
tick_t clock_get();
void clock_set(tick_t);         // ignored when it is not accessible
}
#endif
