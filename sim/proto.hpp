// Shared-memory protocol between the simulator (parent process) and simulated program processes ("nodes").
#pragma once
#include <atomic>
#include <cstddef>
#include <cstdint>

namespace sim
{
// Pseudo system calls (beyond the kernel's numbers) that nodes use to talk to the simulator.
enum pseudo : uint32_t
{
    PS_BASE = 100000,
    PS_START,        // a thread is about to run its body
    PS_SPAWN,        // ask for a new thread: returns slot index or -errno
    PS_SPAWN_DONE,   // real pthread_create returned (a0 = result)
    PS_THREAD_EXIT,  // the thread's body and thread-local destructors are done
    PS_JOIN,         // wait for thread with slot a0
    PS_SYSTEM,       // system(cmd)
    PS_CLOCK,        // read clock a0
    PS_YIELD,        // allocation yield point
    PS_REPORT,       // report a tagged string to the simulator
    PS_ABORT,        // abort/assert/terminate with a message
    PS_CRASH,        // fatal signal a0
    PS_MARK,         // phase marker
    PS_RANDOM,       // random numbers
    PS_FORK,         // fork/exec/popen/posix_spawn style call: command line in data
};

constexpr int64_t RELOAD = INT64_MIN; // answer to a futex wait: send the futex word again, it may have changed since
constexpr uint32_t data_cap = 96 * 1024;
constexpr int max_slots = 24;

struct slot_t
{
    std::atomic<uint32_t> go;     // node waits until this is 1
    std::atomic<uint32_t> posted; // a request is waiting
    uint32_t nr;
    uint64_t a[6];
    int64_t ret;
    uint32_t inlen;
    uint32_t outlen; // bytes of data to copy to ...
    int32_t outarg;  // ... the address in this argument (-1: none)
    uint32_t yield_in; // allocations until the next yield point (0: never)
    alignas(16) char data[data_cap];
};

struct shm_t
{
    std::atomic<uint32_t> wake; // simulator waits on this; incremented by every posted request
    slot_t slots[max_slots];
};

// ---- node side API (node.cpp) ----
extern shm_t * shm;
using raw_t = long;
extern "C" long sim_raw_syscall(long nr, long a, long b, long c, long d, long e, long f);
void node_enter(int slot);      // installs handlers and the filter; call in a freshly forked child
bool in_node();                 // is this thread simulated?
long rpc(uint32_t nr, uint64_t a0 = 0, uint64_t a1 = 0, void const * in = nullptr, size_t inlen = 0);
void report(char const * tag, char const * data, size_t len);

// allocation control inside a node
struct alloc_ctl_t
{
    bool counting{};         // count allocations
    bool yields{};           // allocation yield points on
    uint64_t count{};        // allocations so far while counting
    int64_t live{};          // live blocks allocated by operator new
    uint64_t fail_at{};      // fail the fail_at-th counted allocation (1-based; 0: never)
    uint64_t fail_every{};   // fail also every n-th after it (0: no)
    uint64_t failed{};       // failures injected
    unsigned char fill{0xCD}; // new memory is filled with this
};
extern alloc_ctl_t alloc_ctl;
} // namespace sim
