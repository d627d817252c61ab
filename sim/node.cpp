// Node side: everything that runs inside a simulated program process.
// All system calls except memory management, signals and thread bookkeeping trap (syscall user dispatch) and are answered by the
// simulator. Clocks, shell commands, thread creation and abnormal termination are taken over by symbol interposition.
#include "proto.hpp"

#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/futex.h>
#include <linux/seccomp.h>
#include <new>
#include <poll.h>
#include <pthread.h>
#include <random>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <ucontext.h>
#include <unistd.h>

asm(R"(
.text
.globl sim_raw_syscall
.globl sim_raw_syscall_ret
.globl sim_restorer
.globl sim_raw_end
.type sim_raw_syscall,@function
sim_raw_syscall:
    mov %rdi,%rax
    mov %rsi,%rdi
    mov %rdx,%rsi
    mov %rcx,%rdx
    mov %r8,%r10
    mov %r9,%r8
    mov 8(%rsp),%r9
    syscall
sim_raw_syscall_ret:
    ret
.type sim_restorer,@function
sim_restorer:
    mov $15,%rax
    syscall
    ud2
sim_raw_end:
)");
extern "C" char sim_raw_syscall_ret[];
extern "C" char sim_raw_end[];
extern "C" void sim_restorer();

namespace sim
{
shm_t * shm{};
alloc_ctl_t alloc_ctl{};

namespace
{
__thread slot_t * tls_slot __attribute__((tls_model("initial-exec"))) = nullptr;
__thread int tls_slot_idx __attribute__((tls_model("initial-exec"))) = -1;
__thread int tls_passthrough __attribute__((tls_model("initial-exec"))) = 0;
__thread volatile char tls_sel __attribute__((tls_model("initial-exec"))) = 0; // 1: system calls of this thread are intercepted
bool dispatching{};

// glibc bookkeeping that is not simulated
struct passthrough
{
    passthrough()
    {
        tls_passthrough = 1;
        tls_sel = 0;
    }
    ~passthrough()
    {
        tls_passthrough = 0;
        tls_sel = dispatching;
    }
};

struct thread_rec
{
    pthread_t self;
    int slot;
    bool used;
};
thread_rec thread_table[max_slots];

void futex_wake(std::atomic<uint32_t> * w)
{
    sim_raw_syscall(SYS_futex, (long)w, FUTEX_WAKE, 1, 0, 0, 0);
}

// Post the request in the slot and wait for the simulator's answer.
void transact(slot_t * s)
{
    s->go.store(0, std::memory_order_relaxed);
    s->outlen = 0;
    s->outarg = -1;
    s->posted.store(1, std::memory_order_release);
    shm->wake.fetch_add(1, std::memory_order_release);
    futex_wake(&shm->wake);
    while (s->go.load(std::memory_order_acquire) == 0)
        sim_raw_syscall(SYS_futex, (long)&s->go, FUTEX_WAIT, 0, 0, 0, 0);
}

size_t put_str(slot_t * s, size_t off, char const * p)
{
    if (!p)
        p = "";
    while (off < data_cap - 1 && *p)
        s->data[off++] = *p++;
    s->data[off++] = 0;
    return off;
}

size_t put_mem(slot_t * s, size_t off, void const * p, size_t n)
{
    if (off + n > data_cap)
        n = data_cap - off;
    memcpy(s->data + off, p, n);
    return off + n;
}

// which arguments are path names
unsigned path_args(long nr)
{
    switch (nr)
    {
    case SYS_open: case SYS_creat: case SYS_stat: case SYS_lstat: case SYS_access: case SYS_mkdir: case SYS_rmdir:
    case SYS_unlink: case SYS_chdir: case SYS_chmod: case SYS_chown: case SYS_lchown: case SYS_truncate:
    case SYS_readlink: case SYS_statfs: case SYS_utime: case SYS_utimes: case SYS_mknod:
        return 1;
    case SYS_openat: case SYS_newfstatat: case SYS_statx: case SYS_faccessat: case SYS_faccessat2: case SYS_mkdirat:
    case SYS_unlinkat: case SYS_fchmodat: case SYS_fchownat: case SYS_readlinkat: case SYS_utimensat:
    case SYS_mknodat: case SYS_openat2:
        return 2;
    case SYS_rename: case SYS_link: case SYS_symlink:
        return 1 | 2;
    case SYS_renameat: case SYS_renameat2: case SYS_linkat:
        return 2 | 8;
    case SYS_symlinkat:
        return 1 | 4;
    case SYS_execve:
        return 1;
    default:
        return 0;
    }
}

// Forward one trapped system call to the simulator.
long forward(long nr, long const * a)
{
    slot_t * s = tls_slot;
    s->nr = (uint32_t)nr;
    for (int i = 0; i < 6; ++i)
        s->a[i] = (uint64_t)a[i];
    size_t off = 0;
    unsigned const pa = path_args(nr);
    for (int i = 0; i < 6; ++i)
        if (pa & (1u << i))
            off = put_str(s, off, (char const *)a[i]);

    switch (nr)
    {
    case SYS_write:
    case SYS_pwrite64:
        if (s->a[2] > 65536)
            s->a[2] = 65536; // a legal short write
        off = put_mem(s, off, (void const *)a[1], s->a[2]);
        break;
    case SYS_writev:
    {
        iovec const * v = (iovec const *)a[1];
        for (long i = 0; i < a[2]; ++i)
        {
            size_t n = v[i].iov_len;
            if (off + n > 65536)
                n = 65536 - off;
            off = put_mem(s, off, v[i].iov_base, n);
        }
        break;
    }
    case SYS_read:
    case SYS_pread64:
        if (s->a[2] > 65536)
            s->a[2] = 65536;
        break;
    case SYS_readv:
    {
        iovec const * v = (iovec const *)a[1];
        uint64_t tot = 0;
        for (long i = 0; i < a[2]; ++i)
            tot += v[i].iov_len;
        s->a[2] = tot > 65536 ? 65536 : tot;
        break;
    }
    case SYS_getdents64:
        if (s->a[2] > 65536)
            s->a[2] = 65536;
        break;
    case SYS_futex:
    {
        uint32_t val = 0;
        int const cmd = (int)a[1] & FUTEX_CMD_MASK;
        if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET)
        {
            val = __atomic_load_n((uint32_t const *)a[0], __ATOMIC_SEQ_CST);
            off = put_mem(s, off, &val, sizeof val);
            if (a[3])
                off = put_mem(s, off, (void const *)a[3], sizeof(timespec));
        }
        break;
    }
    case SYS_nanosleep:
        off = put_mem(s, off, (void const *)a[0], sizeof(timespec));
        break;
    case SYS_clock_nanosleep:
        off = put_mem(s, off, (void const *)a[2], sizeof(timespec));
        break;
    case SYS_poll:
        off = put_mem(s, off, (void const *)a[0], sizeof(pollfd) * (size_t)a[1]);
        break;
    case SYS_ppoll:
        off = put_mem(s, off, (void const *)a[0], sizeof(pollfd) * (size_t)a[1]);
        break;
    default:
        break;
    }
    s->inlen = (uint32_t)off;
    transact(s);
    while (s->ret == RELOAD && nr == SYS_futex)
    {
        uint32_t const val = __atomic_load_n((uint32_t const *)a[0], __ATOMIC_SEQ_CST);
        put_mem(s, 0, &val, sizeof val);
        transact(s);
    }
    if (s->outlen && nr == SYS_readv)
    {
        iovec const * v = (iovec const *)a[1];
        size_t pos = 0;
        for (long i = 0; i < a[2] && pos < s->outlen; ++i)
        {
            size_t n = v[i].iov_len < s->outlen - pos ? v[i].iov_len : s->outlen - pos;
            memcpy(v[i].iov_base, s->data + pos, n);
            pos += n;
        }
    }
    else if (s->outlen && s->outarg >= 0 && a[s->outarg])
        memcpy((void *)a[s->outarg], s->data, s->outlen);
    return s->ret;
}

int const allowed[] = {SYS_mmap, SYS_munmap, SYS_mprotect, SYS_mremap, SYS_madvise, SYS_brk,
    SYS_rt_sigaction, SYS_rt_sigprocmask, SYS_rt_sigreturn, SYS_sigaltstack, SYS_tgkill,
    SYS_set_robust_list, SYS_rseq, SYS_clone, SYS_clone3, SYS_exit, SYS_membarrier, SYS_arch_prctl,
    SYS_set_tid_address, SYS_prlimit64, SYS_getrlimit, SYS_sched_getaffinity};
bool is_native(long nr)
{
    for (int x : allowed)
        if (x == nr)
            return true;
    return false;
}

void on_sigsys(int, siginfo_t * info, void * ucv)
{
    ucontext_t * uc = (ucontext_t *)ucv;
    greg_t * g = uc->uc_mcontext.gregs;
    long const nr = info->si_syscall;
    long a[6] = {(long)g[REG_RDI], (long)g[REG_RSI], (long)g[REG_RDX], (long)g[REG_R10], (long)g[REG_R8], (long)g[REG_R9]};
    int const saved = errno;
    long r;
    if (nr == SYS_rt_sigprocmask)
    {
        r = sim_raw_syscall(nr, a[0], a[1], a[2], a[3], 0, 0);
        sim_raw_syscall(nr, SIG_SETMASK, 0, (long)&uc->uc_sigmask, 8, 0, 0); // in force after the handler
    }
    else if (!tls_slot || tls_passthrough || is_native(nr))
        r = sim_raw_syscall(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
    else
    {
        r = forward(nr, a);
        if (nr == SYS_exit_group)
            sim_raw_syscall(SYS_exit_group, a[0], 0, 0, 0, 0, 0);
    }
    errno = saved;
    g[REG_RAX] = r;
}

void on_fatal(int sig, siginfo_t *, void *)
{
    if (tls_slot)
    {
        slot_t * s = tls_slot;
        s->nr = PS_CRASH;
        s->a[0] = (uint64_t)sig;
        s->inlen = 0;
        transact(s);
    }
    sim_raw_syscall(SYS_exit_group, 99, 0, 0, 0, 0, 0);
}

// Syscall user dispatch costs nothing per process. (Installing a seccomp filter per simulated process, thousands per second,
// can deadlock the kernel: the deferred release of the compiled filters fills its work queue.)
bool dispatch_on()
{
    long const lo = (long)&sim_raw_syscall, len = (long)sim_raw_end - lo;
    if (sim_raw_syscall(SYS_prctl, 59 /* PR_SET_SYSCALL_USER_DISPATCH */, 1, lo, len, (long)&tls_sel, 0))
        return false;
    tls_sel = 1;
    return true;
}

void install_seccomp()
{
    uint64_t const ip = (uint64_t)sim_raw_syscall_ret;
    constexpr int n = sizeof(allowed) / sizeof(allowed[0]);
    sock_filter f[16 + n];
    int k = 0;
    auto ld = [&](uint32_t off) { f[k++] = BPF_STMT(BPF_LD | BPF_W | BPF_ABS, off); };
    // instruction pointer of the raw stub -> allow
    ld(offsetof(seccomp_data, instruction_pointer));
    f[k++] = BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (uint32_t)ip, 0, 3);
    ld(offsetof(seccomp_data, instruction_pointer) + 4);
    f[k++] = BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (uint32_t)(ip >> 32), 0, 1);
    f[k++] = BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
    ld(offsetof(seccomp_data, nr));
    for (int i = 0; i < n; ++i)
        f[k++] = BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (uint32_t)allowed[i], (uint8_t)(n - i), 0);
    f[k++] = BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP);
    f[k++] = BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
    sock_fprog prog{(unsigned short)k, f};
    if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) || prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &prog, 0, 0))
    {
        char const m[] = "sim: cannot intercept system calls\n";
        (void)!write(2, m, sizeof m - 1);
        sim_raw_syscall(SYS_exit_group, 98, 0, 0, 0, 0, 0);
    }
}

pthread_key_t exit_key;
void exit_key_dtor(void *)
{
    if (!tls_slot)
        return;
    rpc(PS_THREAD_EXIT);
    tls_sel = 0;
    tls_passthrough = 1; // the rest of the thread's life is glibc bookkeeping
}

struct start_rec
{
    void * (*fn)(void *);
    void * arg;
    int slot;
};

void * thread_main(void * p)
{
    start_rec r = *(start_rec *)p;
    free(p);
    if (dispatching && !dispatch_on())
        sim_raw_syscall(SYS_exit_group, 98, 0, 0, 0, 0, 0);
    tls_slot_idx = r.slot;
    thread_table[r.slot] = {pthread_self(), r.slot, true};
    tls_slot = &shm->slots[r.slot];
    pthread_setspecific(exit_key, (void *)1);
    rpc(PS_START, (uint64_t)sim_raw_syscall(SYS_gettid, 0, 0, 0, 0, 0, 0));
    return r.fn(r.arg);
}
} // namespace

bool in_node()
{
    return tls_slot != nullptr && !tls_passthrough;
}

long rpc(uint32_t nr, uint64_t a0, uint64_t a1, void const * in, size_t inlen)
{
    slot_t * s = tls_slot;
    s->nr = nr;
    s->a[0] = a0;
    s->a[1] = a1;
    size_t off = 0;
    if (in)
        off = put_mem(s, 0, in, inlen);
    s->inlen = (uint32_t)off;
    transact(s);
    return s->ret;
}

void report(char const * tag, char const * data, size_t len)
{
    slot_t * s = tls_slot;
    s->nr = PS_REPORT;
    size_t off = put_str(s, 0, tag);
    off = put_mem(s, off, data, len);
    s->inlen = (uint32_t)off;
    transact(s);
}

void node_enter(int slot)
{
    struct sigaction sa{};
    sa.sa_sigaction = on_fatal;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    static char altstack[32768];
    stack_t st{};
    st.ss_sp = altstack;
    st.ss_size = sizeof altstack;
    sigaltstack(&st, nullptr);
    sa.sa_flags |= SA_ONSTACK;
    for (int sig : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGXCPU})
        sigaction(sig, &sa, nullptr);
    // the handler's return must not be intercepted: own restorer
    struct
    {
        void (*handler)(int, siginfo_t *, void *);
        unsigned long flags;
        void (*restorer)();
        uint64_t mask;
    } ka{on_sigsys, SA_SIGINFO | SA_NODEFER | 0x04000000, sim_restorer, 0};
    sim_raw_syscall(SYS_rt_sigaction, SIGSYS, (long)&ka, 0, 8, 0, 0);
    rlimit rl{20, 30};
    setrlimit(RLIMIT_CPU, &rl);
    rlimit core{0, 0};
    setrlimit(RLIMIT_CORE, &core);
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    pthread_key_create(&exit_key, exit_key_dtor);
    tls_slot_idx = slot;
    dispatching = dispatch_on();
    if (!dispatching)
        install_seccomp();
    tls_slot = &shm->slots[slot];
    thread_table[slot] = {pthread_self(), slot, true};
    rpc(PS_START, (uint64_t)sim_raw_syscall(SYS_gettid, 0, 0, 0, 0, 0, 0));
}
} // namespace sim

// --------------------------------------------------------------------------------------------------------------------
// symbol interposition
// --------------------------------------------------------------------------------------------------------------------
using namespace sim;

namespace
{
template <typename F>
F real(char const * name)
{
    return (F)dlsym(RTLD_NEXT, name);
}
} // namespace

extern "C"
{
int clock_gettime(clockid_t id, struct timespec * ts) noexcept
{
    if (!in_node())
        return (int)sim_raw_syscall(SYS_clock_gettime, id, (long)ts, 0, 0, 0, 0);
    long ns = rpc(PS_CLOCK, (uint64_t)id);
    ts->tv_sec = ns / 1000000000;
    ts->tv_nsec = ns % 1000000000;
    return 0;
}

int gettimeofday(struct timeval * tv, void *) noexcept
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}

time_t time(time_t * t) noexcept
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t)
        *t = ts.tv_sec;
    return ts.tv_sec;
}

int timespec_get(struct timespec * ts, int base) noexcept
{
    clock_gettime(CLOCK_REALTIME, ts);
    return base;
}

int system(char const * cmd)
{
    if (!in_node())
        return real<int (*)(char const *)>("system")(cmd);
    if (!cmd)
        return 1;
    long r = rpc(PS_SYSTEM, 0, 0, cmd, strlen(cmd));
    if (r < 0)
    {
        errno = (int)-(r + 1000000); // encoded errno: see the simulator
        return -1;
    }
    return (int)r;
}

// Other ways to start a program: reported to the simulator (which treats them like a shell command) and refused.
static void report_exec(char const * what, char const * file, char * const * argv)
{
    char buf[4096];
    size_t n = 0;
    auto add = [&](char const * s)
    {
        while (*s && n < sizeof buf - 2)
            buf[n++] = *s++;
        buf[n++] = ' ';
    };
    add(what);
    add(file);
    for (int i = 0; argv && argv[i] && n < sizeof buf - 2; ++i)
        add(argv[i]);
    rpc(PS_FORK, 0, 0, buf, n);
}

FILE * popen(char const * cmd, char const *)
{
    if (in_node())
        report_exec("popen", cmd, nullptr);
    errno = EAGAIN;
    return nullptr;
}
int posix_spawn(pid_t *, char const * path, void const *, void const *, char * const argv[], char * const[])
{
    if (in_node())
        report_exec("posix_spawn", path, argv);
    return EAGAIN;
}
int posix_spawnp(pid_t *, char const * path, void const *, void const *, char * const argv[], char * const[])
{
    if (in_node())
        report_exec("posix_spawnp", path, argv);
    return EAGAIN;
}
pid_t fork() noexcept
{
    if (in_node())
    {
        report_exec("fork", "", nullptr);
        errno = EAGAIN;
        return -1;
    }
    return real<pid_t (*)()>("fork")();
}
extern "C" int fork_real(void)
{
    static auto f = real<pid_t (*)()>("fork");
    return f();
}
pid_t vfork() noexcept
{
    errno = EAGAIN;
    if (in_node())
        report_exec("vfork", "", nullptr);
    return -1;
}

int pthread_create(pthread_t * t, pthread_attr_t const * at, void * (*fn)(void *), void * arg) noexcept
{
    using F = int (*)(pthread_t *, pthread_attr_t const *, void * (*)(void *), void *);
    static F const real_create = real<F>("pthread_create");
    if (!in_node())
        return real_create(t, at, fn, arg);
    long idx = rpc(PS_SPAWN);
    if (idx < 0)
        return (int)-idx;
    start_rec * r = (start_rec *)malloc(sizeof(start_rec));
    *r = {fn, arg, (int)idx};
    int res;
    {
        passthrough pt;
        res = real_create(t, at, thread_main, r);
    }
    rpc(PS_SPAWN_DONE, (uint64_t)idx, (uint64_t)res);
    return res;
}

int pthread_join(pthread_t t, void ** ret)
{
    using F = int (*)(pthread_t, void **);
    static F const real_join = real<F>("pthread_join");
    if (!in_node())
        return real_join(t, ret);
    for (auto & e : thread_table)
        if (e.used && pthread_equal(e.self, t))
        {
            rpc(PS_JOIN, (uint64_t)e.slot);
            e.used = false;
            break;
        }
    passthrough pt;
    return real_join(t, ret);
}

void abort() noexcept
{
    if (in_node())
        rpc(PS_ABORT, 0, 0, "abort()", 7);
    raise(SIGABRT);
    sim_raw_syscall(SYS_exit_group, 97, 0, 0, 0, 0, 0);
    __builtin_unreachable();
}

void __assert_fail(char const * expr, char const * file, unsigned int, char const * func) noexcept
{
    char buf[1024];
    int n = snprintf(buf, sizeof buf, "assertion failed: %s (%s) in %s", expr, strrchr(file, '/') ? strrchr(file, '/') + 1 : file, func);
    if (in_node())
        rpc(PS_ABORT, 1, 0, buf, (size_t)n < sizeof buf ? n : sizeof buf - 1);
    raise(SIGABRT);
    sim_raw_syscall(SYS_exit_group, 97, 0, 0, 0, 0, 0);
    __builtin_unreachable();
}

int getentropy(void * p, size_t n)
{
    for (size_t i = 0; i < n; ++i)
        ((unsigned char *)p)[i] = in_node() ? (unsigned char)rpc(PS_RANDOM) : 0;
    return 0;
}
} // extern "C"

// std::random_device
namespace std
{
random_device::result_type random_device::_M_getval()
{
    return in_node() ? (result_type)rpc(PS_RANDOM) : 4u;
}
} // namespace std

// --------------------------------------------------------------------------------------------------------------------
// allocation hooks
// --------------------------------------------------------------------------------------------------------------------
static bool alloc_hook()
{
    if (alloc_ctl.yields && tls_slot && !tls_passthrough)
    {
        slot_t * s = tls_slot;
        if (s->yield_in && --s->yield_in == 0)
            rpc(PS_YIELD);
    }
    if (alloc_ctl.counting && tls_slot && !tls_passthrough)
    {
        uint64_t const c = ++alloc_ctl.count;
        if (alloc_ctl.fail_at
            && (c == alloc_ctl.fail_at
                || (alloc_ctl.fail_every && c > alloc_ctl.fail_at && (c - alloc_ctl.fail_at) % alloc_ctl.fail_every == 0)))
        {
            ++alloc_ctl.failed;
            return false;
        }
    }
    return true;
}

// Blocks carry a header and a canary; simulated programs see filled memory, so memory errors behave the same every time.
namespace
{
struct blk
{
    uint64_t size, magic;
};
constexpr uint64_t MAGIC = 0x51a5c0de51a5c0deull, FREED = 0xdeadfeeddeadfeedull;
constexpr size_t TAIL = 16;
[[noreturn]] void corrupt(char const * what)
{
    if (in_node())
        rpc(PS_ABORT, 1, 0, what, strlen(what));
    raise(SIGABRT);
    sim_raw_syscall(SYS_exit_group, 97, 0, 0, 0, 0, 0);
    __builtin_unreachable();
}
} // namespace

static void * do_new(size_t n, size_t al)
{
    if (!alloc_hook())
        return nullptr;
    if (al)
    {
        void * p = aligned_alloc(al, (n + al - 1) / al * al);
        if (p)
            __atomic_fetch_add(&alloc_ctl.live, 1, __ATOMIC_RELAXED);
        return p;
    }
    if (n > (size_t)1 << 40)
        return nullptr;
    blk * b = (blk *)malloc(sizeof(blk) + n + TAIL);
    if (!b)
        return nullptr;
    b->size = n;
    b->magic = MAGIC;
    char * p = (char *)(b + 1);
    if (tls_slot)
        memset(p, alloc_ctl.fill, n);
    memset(p + n, 0xA5, TAIL);
    __atomic_fetch_add(&alloc_ctl.live, 1, __ATOMIC_RELAXED);
    return p;
}
static void do_delete_aligned(void * p)
{
    if (p)
        __atomic_fetch_sub(&alloc_ctl.live, 1, __ATOMIC_RELAXED);
    free(p);
}
static void do_delete(void * q)
{
    if (!q)
        return;
    blk * b = (blk *)q - 1;
    if (b->magic == FREED)
        corrupt("heap corruption: a block is freed twice");
    if (b->magic != MAGIC)
        corrupt("heap corruption: memory before a block was overwritten, or a pointer not from operator new was deleted");
    char * p = (char *)q;
    for (size_t i = 0; i < TAIL; ++i)
        if ((unsigned char)p[b->size + i] != 0xA5)
            corrupt("heap corruption: memory behind a block was overwritten");
    b->magic = FREED;
    if (tls_slot)
        memset(p, 0xDD, b->size);
    __atomic_fetch_sub(&alloc_ctl.live, 1, __ATOMIC_RELAXED);
    free(b);
}

void * operator new(size_t n)
{
    void * p = do_new(n, 0);
    if (!p)
        throw std::bad_alloc{};
    return p;
}
void * operator new[](size_t n)
{
    void * p = do_new(n, 0);
    if (!p)
        throw std::bad_alloc{};
    return p;
}
void * operator new(size_t n, std::nothrow_t const &) noexcept { return do_new(n, 0); }
void * operator new[](size_t n, std::nothrow_t const &) noexcept { return do_new(n, 0); }
void * operator new(size_t n, std::align_val_t a)
{
    void * p = do_new(n, (size_t)a);
    if (!p)
        throw std::bad_alloc{};
    return p;
}
void * operator new[](size_t n, std::align_val_t a)
{
    void * p = do_new(n, (size_t)a);
    if (!p)
        throw std::bad_alloc{};
    return p;
}
void operator delete(void * p) noexcept { do_delete(p); }
void operator delete[](void * p) noexcept { do_delete(p); }
void operator delete(void * p, size_t) noexcept { do_delete(p); }
void operator delete[](void * p, size_t) noexcept { do_delete(p); }
void operator delete(void * p, std::nothrow_t const &) noexcept { do_delete(p); }
void operator delete[](void * p, std::nothrow_t const &) noexcept { do_delete(p); }
void operator delete(void * p, std::align_val_t) noexcept { do_delete_aligned(p); }
void operator delete[](void * p, std::align_val_t) noexcept { do_delete_aligned(p); }
void operator delete(void * p, size_t, std::align_val_t) noexcept { do_delete_aligned(p); }
void operator delete[](void * p, size_t, std::align_val_t) noexcept { do_delete_aligned(p); }
