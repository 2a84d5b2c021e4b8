// The environment the library under test runs in.  Every libc entry point the library uses is
// redirected (objcopy --redefine-sym, see bin/check) to the vf_* functions below, so that the
// harness owns the heap, the random source, signal dispositions, the clock, the terminal, and
// (in the "fine" build) gets control at every basic block.
#pragma once
#include <cstddef>
#include <cstdint>
#include <csignal>
#include <ctime>
#include <string>
#include <vector>
namespace env {
// heap
extern int fill;                 // byte used to fill fresh malloc memory
extern long live_blocks, live_bytes, total_allocs;
extern std::string heap_error;   // non-empty: double free, bad free, guard overwritten
extern bool heap_track;          // true: guarded allocator (default)
struct Snapshot { long blocks, bytes; };
inline Snapshot snap() { return {live_blocks, live_bytes}; }
void heap_check_all();           // verifies the guards of all live blocks
// random
extern int (*rand_hook)();       // null: constant 0
// signals (model of the process' SIGINT disposition)
extern struct sigaction sigint_disp;
extern long sigaction_calls;
enum Deliver { D_CALLED, D_DEFAULT_DEATH, D_IGNORED };
Deliver deliver_sigint();        // what the kernel would do now
// clock
extern long long clock_ns;       // current virtual time
extern long long (*clock_hook)();// null: clock_ns += 1000
extern long clock_calls;
// terminal
extern long printed;             // bytes written to stdout/stderr by the library
extern bool keep_output;
extern std::string output;
extern void (*out_hook)(const char *, size_t); // called with every piece of output
// scheduling points
extern void (*point_hook)();     // called at every basic block (fine build)
extern uint64_t points;
void reset();                    // deterministic initial environment
}
