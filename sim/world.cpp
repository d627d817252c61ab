#include "world.hpp"

#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dirent.h>
#include <linux/futex.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/resource.h>
#include <sys/statfs.h>
#include <sys/syscall.h>
#include <sys/sysmacros.h>
#include <sys/utsname.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" int fork_real(void);

namespace sim
{
// --------------------------------------------------------------------------------------------------------------------
// names
// --------------------------------------------------------------------------------------------------------------------
static char const * errname(int e)
{
    switch (e)
    {
    case EACCES: return "EACCES"; case EIO: return "EIO"; case ENOSPC: return "ENOSPC"; case EROFS: return "EROFS";
    case EMFILE: return "EMFILE"; case ENFILE: return "ENFILE"; case ENOMEM: return "ENOMEM"; case EINTR: return "EINTR";
    case EDQUOT: return "EDQUOT"; case EPERM: return "EPERM"; case EBUSY: return "EBUSY"; case ELOOP: return "ELOOP";
    case ENOENT: return "ENOENT"; case EEXIST: return "EEXIST"; case ENOTDIR: return "ENOTDIR"; case EISDIR: return "EISDIR";
    case EAGAIN: return "EAGAIN"; case ENOTEMPTY: return "ENOTEMPTY"; case ENOTTY: return "ENOTTY"; case EINVAL: return "EINVAL";
    case ENAMETOOLONG: return "ENAMETOOLONG"; case EBADF: return "EBADF"; case ENOSYS: return "ENOSYS"; case ETXTBSY: return "ETXTBSY";
    case ENXIO: return "ENXIO"; case ETIMEDOUT: return "ETIMEDOUT"; case EPIPE: return "EPIPE"; case ESTALE: return "ESTALE";
    case EXDEV: return "EXDEV";
    default: { static char b[16]; snprintf(b, sizeof b, "E%d", e); return b; }
    }
}

char const * sysname(uint32_t nr)
{
    switch (nr)
    {
    case SYS_open: return "open"; case SYS_openat: return "openat"; case SYS_creat: return "creat"; case SYS_close: return "close";
    case SYS_read: return "read"; case SYS_readv: return "readv"; case SYS_pread64: return "pread"; case SYS_write: return "write";
    case SYS_writev: return "writev"; case SYS_pwrite64: return "pwrite"; case SYS_lseek: return "lseek"; case SYS_stat: return "stat";
    case SYS_lstat: return "lstat"; case SYS_fstat: return "fstat"; case SYS_newfstatat: return "fstatat"; case SYS_statx: return "statx";
    case SYS_access: return "access"; case SYS_faccessat: case SYS_faccessat2: return "faccessat"; case SYS_mkdir: return "mkdir";
    case SYS_mkdirat: return "mkdirat"; case SYS_rmdir: return "rmdir"; case SYS_unlink: return "unlink"; case SYS_unlinkat: return "unlinkat";
    case SYS_rename: case SYS_renameat: case SYS_renameat2: return "rename"; case SYS_getdents64: return "getdents"; case SYS_ioctl: return "ioctl";
    case SYS_fcntl: return "fcntl"; case SYS_dup: case SYS_dup2: case SYS_dup3: return "dup"; case SYS_futex: return "futex";
    case SYS_exit_group: return "exit_group"; case SYS_readlink: case SYS_readlinkat: return "readlink"; case SYS_getcwd: return "getcwd";
    case SYS_chdir: return "chdir"; case SYS_fchdir: return "fchdir"; case SYS_chmod: case SYS_fchmod: case SYS_fchmodat: return "chmod";
    case SYS_fsync: case SYS_fdatasync: return "fsync"; case SYS_ftruncate: case SYS_truncate: return "truncate";
    case SYS_nanosleep: case SYS_clock_nanosleep: return "sleep"; case SYS_symlink: case SYS_symlinkat: return "symlink";
    case SYS_link: case SYS_linkat: return "link"; case SYS_umask: return "umask"; case SYS_sched_yield: return "sched_yield";
    case PS_START: return "start"; case PS_SPAWN: return "thread_create"; case PS_SPAWN_DONE: return "thread_created";
    case PS_THREAD_EXIT: return "thread_exit"; case PS_JOIN: return "join"; case PS_SYSTEM: return "system"; case PS_CLOCK: return "clock";
    case PS_YIELD: return "yield"; case PS_REPORT: return "report"; case PS_ABORT: return "abort"; case PS_CRASH: return "crash";
    case PS_MARK: return "mark"; case PS_RANDOM: return "random"; case PS_FORK: return "fork";
    default: { static char b[24]; snprintf(b, sizeof b, "sys_%u", nr); return b; }
    }
}

// --------------------------------------------------------------------------------------------------------------------
// shell syntax
// --------------------------------------------------------------------------------------------------------------------
parsed_command parse_shell(std::string const & c)
{
    parsed_command r;
    r.simple = true;
    auto bad = [&](std::string const & why)
    {
        if (r.simple)
            r.problem = why;
        r.simple = false;
    };
    size_t i = 0;
    std::string word;
    bool have = false;
    std::string pending_redirect;
    auto flush = [&]()
    {
        if (!have)
            return;
        if (!pending_redirect.empty())
        {
            r.redirects.emplace_back(pending_redirect, word);
            pending_redirect.clear();
        }
        else
            r.words.push_back(word);
        word.clear();
        have = false;
    };
    bool word_start_tilde = true;
    (void)word_start_tilde;
    while (i < c.size())
    {
        char ch = c[i];
        if (ch == ' ' || ch == '\t')
        {
            flush();
            ++i;
        }
        else if (ch == '\n')
        {
            flush();
            if (c.find_first_not_of(" \t\n", i) != std::string::npos)
                bad("newline separates commands");
            ++i;
        }
        else if (ch == '\'')
        {
            size_t j = c.find('\'', i + 1);
            if (j == std::string::npos)
            {
                bad("unterminated quote");
                return r;
            }
            word += c.substr(i + 1, j - i - 1);
            have = true;
            i = j + 1;
        }
        else if (ch == '"')
        {
            ++i;
            have = true;
            for (;; ++i)
            {
                if (i >= c.size())
                {
                    bad("unterminated quote");
                    return r;
                }
                if (c[i] == '"')
                    break;
                if (c[i] == '\\' && i + 1 < c.size() && strchr("$`\"\\\n", c[i + 1]))
                {
                    ++i;
                    if (c[i] != '\n')
                        word += c[i];
                    continue;
                }
                if (c[i] == '$' && i + 1 < c.size() && c[i + 1] != '"' && c[i + 1] != ' ')
                    bad("expansion in double quotes");
                if (c[i] == '`')
                    bad("command substitution in double quotes");
                word += c[i];
            }
            ++i;
        }
        else if (ch == '\\')
        {
            if (i + 1 < c.size())
            {
                if (c[i + 1] != '\n')
                {
                    word += c[i + 1];
                    have = true;
                }
            }
            i += 2;
        }
        else if (ch == '>' || ch == '<')
        {
            std::string fd;
            if (have && !word.empty() && word.find_first_not_of("0123456789") == std::string::npos
                && i && isdigit((unsigned char)c[i - 1]))
            {
                fd = word;
                word.clear();
                have = false;
            }
            flush();
            std::string op = fd + ch;
            ++i;
            while (i < c.size() && (c[i] == '>' || c[i] == '&' || c[i] == '|'))
                op += c[i++];
            if (ch == '<')
                bad("input redirection");
            pending_redirect = op;
        }
        else if (ch == ';' || ch == '&' || ch == '|' || ch == '(' || ch == ')')
        {
            flush();
            bad(std::string{"operator '"} + ch + "'");
            ++i;
        }
        else if (ch == '$' && i + 1 < c.size() && (isalnum((unsigned char)c[i + 1]) || strchr("_({*@#?-$!", c[i + 1])))
        {
            bad("expansion");
            word += ch;
            have = true;
            ++i;
        }
        else if (ch == '`')
        {
            bad("command substitution");
            ++i;
        }
        else if (ch == '*' || ch == '?' || ch == '[')
        {
            // quoting not needed for correctness unless the glob could match; treat as a problem only for paths
            bad("glob character");
            word += ch;
            have = true;
            ++i;
        }
        else if (ch == '#' && !have)
        {
            bad("comment");
            break;
        }
        else if (ch == '~' && !have)
        {
            bad("tilde expansion");
            word += ch;
            have = true;
            ++i;
        }
        else
        {
            word += ch;
            have = true;
            ++i;
        }
    }
    flush();
    if (!pending_redirect.empty())
        bad("redirection without target");
    return r;
}

// --------------------------------------------------------------------------------------------------------------------
// world
// --------------------------------------------------------------------------------------------------------------------
world::world(choices & c) : ch{c}
{
    set_realtime(1'700'000'000);
}

world::~world()
{
    for (auto & p : procs)
        if (p->end == pend::running && p->pid > 0)
        {
            ::kill(p->pid, SIGKILL);
            int st;
            ::waitpid(p->pid, &st, 0);
        }
}

void world::mixin(uint64_t v)
{
    for (int i = 0; i < 8; ++i)
    {
        hash ^= (v >> (8 * i)) & 255;
        hash *= 1099511628211ull;
    }
}
void world::mixin(std::string const & s)
{
    for (unsigned char ch_ : s)
    {
        hash ^= ch_;
        hash *= 1099511628211ull;
    }
    hash ^= 0xff;
    hash *= 1099511628211ull;
}

void world::log(std::string const & s)
{
    if (trace_on && trace.size() < 4000)
    {
        char b[64];
        snprintf(b, sizeof b, "#%d t=%.6fs ", seq, (double)(now - 1000 * SEC) / SEC);
        trace.push_back(b + s);
    }
}

void world::fev(int proc, std::string const & path, std::string const & op)
{
    fevents.push_back({seq, proc, path, op});
}

void world::at(int64_t t, std::function<void()> fn)
{
    events.push_back({t, evseq++, std::move(fn)});
}

int world::alloc_slot()
{
    for (int i = 0; i < max_slots; ++i)
        if (!slot_used[i])
        {
            slot_used[i] = true;
            slot_t & s = shm->slots[i];
            s.go = 0;
            s.posted = 0;
            s.nr = 0;
            s.yield_in = 0;
            s.inlen = s.outlen = 0;
            return i;
        }
    return -1;
}

process_t & world::spawn(proc_opts o)
{
    auto p = std::make_unique<process_t>();
    p->id = (int)procs.size();
    p->o = std::move(o);
    process_t & r = *p;
    procs.push_back(std::move(p));
    at(now + r.o.start_delay, [this, &r] { start_process(r); });
    return r;
}

void world::start_process(process_t & p)
{
    int slot = alloc_slot();
    if (slot < 0)
    {
        harness_error = "no free slot";
        return;
    }
    auto cwdn = fs.at(p.o.cwd);
    p.cwd = cwdn ? cwdn.get() : fs.root.get();
    for (int i = 0; i < 3; ++i)
    {
        stdkind k = i == 0 ? p.o.in : i == 1 ? p.o.out : p.o.err;
        if (k == stdkind::closed)
            continue;
        auto f = std::make_shared<fd_obj>();
        f->kind = k == stdkind::tty ? fd_obj::tty : i == 0 ? fd_obj::source : fd_obj::sink;
        f->std = i;
        f->flags = i == 0 ? O_RDONLY : O_WRONLY;
        p.fds[i] = f;
    }
    pid_t pid = (pid_t)fork_real();
    if (pid < 0)
    {
        harness_error = "fork failed";
        return;
    }
    if (pid == 0)
    {
        node_enter(slot);
        int rc = p.o.body();
        ::exit(rc);
    }
    p.pid = pid;
    p.t0 = now;
    p.seq0 = seq;
    p.started = true;
    auto t = std::make_unique<thread_t>();
    t->p = &p;
    t->id = 0;
    t->slot = slot;
    thread_t * tp = t.get();
    p.threads.push_back(std::move(t));
    if (sched.policy == sched_policy::pct)
        prio[tp] = 1000 + ch.pick(S_SCHED, 1000);
    if (sched.max_yield)
        shm->slots[slot].yield_in = 1 + ch.pick(S_SCHED, sched.max_yield);
    log("P" + std::to_string(p.id) + " " + p.o.name + " started");
    if (wait_request(p, slot))
        settle(*tp);
}

void world::reap(process_t & p)
{
    for (auto & t : p.threads)
    {
        if (t->st != tstate::dead)
        {
            t->st = tstate::dead;
            slot_used[t->slot] = false;
        }
        if (current == t.get())
            current = nullptr;
    }
    p.t1 = now;
    p.seq1 = ++seq;
    for (auto & [fd, o] : p.fds)
        if (fd > 2)
            ++p.leaked_fds;
    p.fds.clear();
}

void world::kill_process(process_t & p, pend how)
{
    if (p.end != pend::running)
        return;
    p.end = how;
    if (p.pid > 0)
    {
        ::kill(p.pid, SIGKILL);
        int st;
        ::waitpid(p.pid, &st, 0);
    }
    log("P" + std::to_string(p.id) + (how == pend::killed ? " killed" : how == pend::hung ? " hung" : " died"));
    mixin(0xdead0000u + p.id);
    reap(p);
}

// Waits until the thread in the slot posted its next request. Returns false if the process died.
bool world::wait_request(process_t & p, int slot)
{
    slot_t & s = shm->slots[slot];
    for (;;)
    {
        uint32_t w = shm->wake.load(std::memory_order_acquire);
        if (s.posted.load(std::memory_order_acquire))
        {
            s.posted.store(0, std::memory_order_relaxed);
            return true;
        }
        timespec ts{0, 20'000'000};
        sim_raw_syscall(SYS_futex, (long)&shm->wake, FUTEX_WAIT, w, (long)&ts, 0, 0);
        if (s.posted.load(std::memory_order_acquire))
            continue;
        int st = 0;
        pid_t r = ::waitpid(p.pid, &st, WNOHANG);
        if (r == p.pid)
        {
            if (s.posted.load(std::memory_order_acquire)) { /* posted and died: treat as death */ }
            p.end = pend::crashed;
            p.signal_ = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
            if (WIFEXITED(st) && (WEXITSTATUS(st) == 98))
                harness_error = "system calls cannot be intercepted";
            else if (WIFEXITED(st) && WEXITSTATUS(st) == 99)
                p.abort_msg = "fatal signal in unsimulated code";
            if (p.signal_ == SIGKILL || p.signal_ == SIGXCPU)
            {
                p.end = pend::hung;
                p.abort_msg = "used up its CPU time without a system call";
            }
            log("P" + std::to_string(p.id) + " died, signal " + std::to_string(p.signal_));
            mixin(0xdead1000u + p.id);
            reap(p);
            return false;
        }
    }
}

// Gives the answer to a thread and waits for its next request.
void world::resume(thread_t & t, long ret)
{
    process_t & p = *t.p;
    slot_t & s = shm->slots[t.slot];
    s.ret = ret;
    t.st = tstate::running;
    s.go.store(1, std::memory_order_release);
    sim_raw_syscall(SYS_futex, (long)&s.go, FUTEX_WAKE, 1, 0, 0, 0);
    if (wait_request(p, t.slot))
        settle(t);
}

// A thread posted a request: note it (it is executed when the scheduler picks the thread).
void world::settle(thread_t & t)
{
    t.st = tstate::ready;
    t.replied = false;
    t.started_blocking = false;
    t.pend_nr = shm->slots[t.slot].nr;
}

void world::thread_gone(thread_t & t)
{
    t.st = tstate::dead;
    slot_used[t.slot] = false;
    if (current == &t)
        current = nullptr;
    for (auto & o : t.p->threads)
        if (o->st == tstate::blocked && o->why == thread_t::join && o->join_slot == t.slot)
        {
            o->st = tstate::ready;
            o->replied = true;
            o->ret = 0;
            o->wake_at = NEVER;
            o->why = thread_t::none;
        }
}

bool world::fire_events()
{
    bool any = false;
    for (;;)
    {
        int best = -1;
        for (size_t i = 0; i < events.size(); ++i)
            if (events[i].t <= now
                && (best < 0 || events[i].t < events[best].t || (events[i].t == events[best].t && events[i].seq < events[best].seq)))
                best = (int)i;
        if (best < 0)
            break;
        auto fn = std::move(events[best].fn);
        events.erase(events.begin() + best);
        fn();
        any = true;
        if (!harness_error.empty())
            break;
    }
    for (auto & p : procs)
        for (auto & t : p->threads)
            if (t->st == tstate::blocked && t->wake_at <= now)
            {
                t->st = tstate::ready;
                t->replied = true;
                if (t->why == thread_t::futex)
                    t->ret = -ETIMEDOUT;
                else if (t->why == thread_t::sleep)
                    t->ret = 0;
                else if (t->why == thread_t::stdin_ || t->why == thread_t::none)
                    t->replied = false; // re-execute the operation
                t->wake_at = NEVER;
                t->why = thread_t::none;
                any = true;
            }
    return any;
}

int64_t world::next_deadline() const
{
    int64_t d = NEVER;
    for (auto & e : events)
        d = std::min(d, e.t);
    for (auto & p : procs)
        for (auto & t : p->threads)
            if (t->st == tstate::blocked)
                d = std::min(d, t->wake_at);
    return d;
}

thread_t * world::choose()
{
    std::vector<thread_t *> ready;
    for (auto & p : procs)
        for (auto & t : p->threads)
            if (t->st == tstate::ready)
                ready.push_back(t.get());
    if (ready.empty())
        return nullptr;
    if (ready.size() == 1)
        return ready[0];
    bool const cur_ready = current && std::find(ready.begin(), ready.end(), current) != ready.end();
    if (sched.policy == sched_policy::run_to_block)
        return cur_ready ? current : ready[0];
    if (sched.policy == sched_policy::pct)
    {
        if (cur_ready && ch.chance(S_SCHED, 1, 40))
            prio[current] = ch.pick(S_SCHED, 1000);
        thread_t * best = ready[0];
        for (auto * t : ready)
            if (prio[t] > prio[best])
                best = t;
        return best;
    }
    if (cur_ready)
    {
        if (!ch.chance(S_SCHED, sched.switch_num, sched.switch_den))
            return current;
        ready.erase(std::find(ready.begin(), ready.end(), current));
    }
    return ready[ch.pick(S_SCHED, (uint32_t)ready.size())];
}

void world::run()
{
    int const op_start = total_ops;
    size_t env_pos = 0;
    for (;;)
    {
        if (!harness_error.empty())
            return;
        fire_events();
        bool alive = false;
        for (auto & p : procs)
            if (p->end == pend::running)
                alive = true;
        if (!alive)
            return;
        thread_t * t = choose();
        if (!t)
        {
            int64_t d = next_deadline();
            if (d == NEVER)
            {
                deadlock = true;
                log("deadlock: every thread is blocked for ever");
                for (auto & p : procs)
                    if (p->end == pend::running)
                        kill_process(*p, pend::hung);
                return;
            }
            now = std::max(now, d);
            continue;
        }
        if (total_ops - op_start > op_cap)
        {
            for (auto & p : procs)
                if (p->end == pend::running)
                {
                    p->abort_msg = "operation limit exceeded";
                    kill_process(*p, pend::hung);
                }
            return;
        }
        while (env_pos < env_events.size() && env_events[env_pos].first <= total_ops - op_start)
            env_events[env_pos++].second(*this);
        if (t != current)
        {
            ++switches;
            current = t;
        }
        if (sched.stall_num && !t->replied && t->p->threads.size() + procs.size() > 1
            && ch.chance(S_SCHED, sched.stall_num, sched.stall_den))
        {
            int64_t d = sched.stalls[ch.pick(S_SCHED, (uint32_t)sched.stalls.size())];
            t->st = tstate::blocked;
            t->why = thread_t::none;
            t->wake_at = now + d;
            t->stalls += d;
            t->p->stalls += d;
            stats["fault:stalled thread"]++;
            log("P" + std::to_string(t->p->id) + "/T" + std::to_string(t->id) + " stalled " + std::to_string(d / MS) + " ms");
            continue;
        }
        execute(*t);
    }
}

void world::drain(int64_t limit)
{
    int64_t const end = now + limit;
    while (!events.empty() && harness_error.empty())
    {
        int64_t d = next_deadline();
        if (d > end)
            break;
        now = std::max(now, d);
        fire_events();
        run();
    }
}

void world::execute(thread_t & t)
{
    process_t & p = *t.p;
    long ret = t.ret;
    uint32_t const nr = t.pend_nr;
    ++total_ops;
    now += 2 * US;
    if (t.replied)
    {
        ++seq;
        mixin((uint64_t)p.id << 32 | (uint64_t)t.id << 24 | 0xB10C);
        mixin((uint64_t)ret);
        log("P" + std::to_string(p.id) + "/T" + std::to_string(t.id) + " " + sysname(nr) + " -> " + std::to_string(ret));
        sched_hash = (sched_hash ^ ((uint64_t)p.id * 131 + t.id * 7 + nr)) * 1099511628211ull;
        // answer data (stdin) never arrives this way
        resume(t, ret);
        return;
    }
    bool const real_op = nr < PS_BASE || nr == PS_SYSTEM || nr == PS_SPAWN;
    if (real_op && !t.started_blocking)
    {
        ++p.ops;
        if (p.o.fp.crash_at == p.ops && !p.o.fp.crash_after)
        {
            ++seq;
            stats["fault:crash before an operation"]++;
            log("P" + std::to_string(p.id) + " crash injected before " + sysname(nr));
            kill_process(p, pend::killed);
            return;
        }
    }
    ++seq;
    mixin((uint64_t)p.id << 32 | (uint64_t)t.id << 24 | nr);
    sched_hash = (sched_hash ^ ((uint64_t)p.id * 131 + t.id * 7 + nr)) * 1099511628211ull;
    bool done = syscall(t, ret);
    if (p.end != pend::running)
        return;
    if (!done)
    {
        t.started_blocking = true;
        return;
    }
    mixin((uint64_t)ret);
    if (after_op)
        after_op(*this, t);
    if (real_op && p.o.fp.crash_at == p.ops && p.o.fp.crash_after)
    {
        stats["fault:crash after an operation"]++;
        log("P" + std::to_string(p.id) + " crash injected after " + sysname(nr));
        kill_process(p, pend::killed);
        return;
    }
    if (t.st == tstate::dead)
        return;
    resume(t, ret);
}

int world::inject(thread_t & t, fclass c, std::vector<int> const & errs, std::string const & what)
{
    fault_plan & f = t.p->o.fp;
    if (!(f.classes & c) || errs.empty())
        return 0;
    unsigned const idx = f.matched++;
    uint32_t sel = 0;
    if (f.at >= 0 && (int)idx == f.at)
        sel = 1 + ch.pick(S_FAULT, (uint32_t)errs.size());
    else if (f.num && f.fired < f.max)
        sel = ch.rare(S_FAULT, (uint32_t)errs.size() + 1, f.num, f.den);
    if (!sel)
        return 0;
    ++f.fired;
    int const e = errs[sel - 1];
    std::string cls = what.substr(0, what.find_first_of(" ("));
    stats["fault:" + cls + " " + errname(e)]++;
    t.p->failures.push_back(what + " = " + errname(e));
    log("P" + std::to_string(t.p->id) + "/T" + std::to_string(t.id) + " INJECT " + what + " = " + errname(e));
    return -e;
}

void world::out_data(thread_t & t, int arg, void const * d, size_t n)
{
    slot_t & s = shm->slots[t.slot];
    if (n > data_cap)
        n = data_cap;
    memcpy(s.data, d, n);
    s.outlen = (uint32_t)n;
    s.outarg = arg;
}

std::string world::arg_str(thread_t & t, int k) const
{
    slot_t & s = shm->slots[t.slot];
    size_t off = 0;
    while (k-- > 0)
    {
        while (off < s.inlen && s.data[off])
            ++off;
        ++off;
    }
    size_t e = off;
    while (e < s.inlen && s.data[e])
        ++e;
    return off <= s.inlen ? std::string(s.data + off, e - off) : std::string{};
}

std::string world::path_of(inode const * n) const
{
    if (n == fs.root.get())
        return "/";
    std::string r;
    for (inode const * q = n; q != fs.root.get() && q; q = q->parent)
    {
        std::string nm = "(gone)";
        if (q->parent)
            for (auto & [k, e] : q->parent->ents)
                if (e.get() == q)
                    nm = k;
        r = "/" + nm + r;
        if (nm == "(gone)")
            break;
    }
    return r;
}

std::string world::full_path(inode * base, std::string const & path) const
{
    if (!path.empty() && path[0] == '/')
        return path;
    std::string b = path_of(base);
    return (b == "/" ? "" : b) + "/" + path;
}

inode * world::base_of(process_t & p, int64_t dfd, long & err)
{
    err = 0;
    if ((int)dfd == AT_FDCWD)
        return p.cwd;
    auto it = p.fds.find((int)dfd);
    if (it == p.fds.end())
    {
        err = -EBADF;
        return nullptr;
    }
    if (!it->second->node || it->second->node->type != ftype::dir)
    {
        err = -ENOTDIR;
        return nullptr;
    }
    return it->second->node.get();
}

long world::new_fd(process_t & p, std::shared_ptr<fd_obj> o, int from)
{
    int fd = from;
    while (p.fds.count(fd))
        ++fd;
    if (fd > 200)
        return -EMFILE;
    p.fds[fd] = std::move(o);
    return fd;
}

void world::fill_stat(inode const & n, struct stat & st) const
{
    memset(&st, 0, sizeof st);
    st.st_ino = n.ino;
    st.st_dev = 1;
    st.st_nlink = (nlink_t)n.nlink;
    unsigned ty = 0;
    switch (n.type)
    {
    case ftype::reg: ty = S_IFREG; break;
    case ftype::dir: ty = S_IFDIR; break;
    case ftype::lnk: ty = S_IFLNK; break;
    case ftype::fifo: ty = S_IFIFO; break;
    case ftype::chr: ty = S_IFCHR; break;
    case ftype::sock: ty = S_IFSOCK; break;
    }
    st.st_mode = ty | n.mode;
    st.st_uid = (uid_t)n.uid;
    st.st_gid = (gid_t)n.gid;
    st.st_size = (off_t)n.data.size();
    st.st_blksize = 4096;
    st.st_blocks = (blkcnt_t)((n.data.size() + 511) / 512);
    st.st_mtim.tv_sec = n.mtime / SEC;
    st.st_mtim.tv_nsec = n.mtime % SEC;
    st.st_ctim = st.st_atim = st.st_mtim;
    if (n.type == ftype::chr)
        st.st_rdev = n.data == "null" ? makedev(1, 3) : makedev(1, 7);
}

long world::sys_open(thread_t & t, inode * base, std::string const & path, int flags, unsigned mode)
{
    process_t & p = *t.p;
    int const acc = flags & O_ACCMODE;
    bool const wr = acc == O_WRONLY || acc == O_RDWR;
    std::vector<int> errs{EACCES, EMFILE, EIO, ENFILE, ENOMEM};
    if (wr)
    {
        errs.push_back(EROFS);
        if (flags & O_CREAT)
            errs.push_back(ENOSPC);
    }
    if (int e = inject(t, FC_OPEN, errs, "open(" + path + (wr ? ", write)" : ", read)")))
    {
        p.failed_paths.push_back(full_path(base, path));
        return e;
    }
    lookup l = fs.resolve(base, path, p.o.c, !(flags & O_NOFOLLOW) && !((flags & O_CREAT) && (flags & O_EXCL)));
    inode_p n = l.node;
    if (!n)
    {
        if (l.err != ENOENT || !(flags & O_CREAT) || !l.dir)
            return l.err ? -l.err : -ENOENT;
        if (l.trailing_slash)
            return -EISDIR;
        if (l.mnt & MF_RO)
            return -EROFS;
        if (!vfs::access(*l.dir, p.o.c, 3))
            return -EACCES;
        if (l.mnt & MF_NOINODES)
            return -ENOSPC;
        n = fs.mk(ftype::reg, mode & ~p.umask_ & 07777, p.o.c.uid, p.o.c.gid);
        n->parent = l.dir;
        n->mtime = realtime();
        l.dir->ents[l.name] = n;
        fev(p.id, full_path(base, path), "create");
    }
    else
    {
        if ((flags & O_CREAT) && (flags & O_EXCL))
            return -EEXIST;
        if ((flags & O_DIRECTORY) && n->type != ftype::dir)
            return -ENOTDIR;
        if (n->type == ftype::lnk)
            return -ELOOP;
        if (n->type == ftype::dir && (wr || (flags & O_CREAT)))
            return -EISDIR;
        if (wr && (l.mnt & MF_RO) && n->type != ftype::chr && n->type != ftype::fifo)
            return -EROFS;
        unsigned want = acc == O_RDONLY ? 4 : acc == O_WRONLY ? 2 : 6;
        if (!(flags & O_PATH) && !vfs::access(*n, p.o.c, want))
            return -EACCES;
        if (n->type == ftype::sock)
            return -ENXIO;
        if (n->type == ftype::reg && (flags & O_TRUNC) && wr)
        {
            if (!n->data.empty())
            {
                n->data.clear();
                n->mtime = realtime();
            }
            fev(p.id, full_path(base, path), "truncate");
        }
    }
    auto f = std::make_shared<fd_obj>();
    f->node = n;
    f->flags = flags;
    if (n->type == ftype::dir)
        f->kind = fd_obj::dirh;
    else if (n->type == ftype::chr)
        f->kind = n->data == "full" ? fd_obj::full : fd_obj::nul;
    else if (n->type == ftype::fifo)
        f->kind = wr ? fd_obj::pipe_w : fd_obj::pipe_r;
    return new_fd(p, f);
}

long world::sys_unlink(thread_t & t, inode * base, std::string const & path, bool dir)
{
    process_t & p = *t.p;
    if (int e = inject(t, FC_REMOVE, {EACCES, EPERM, EBUSY, EIO, EROFS}, std::string(dir ? "rmdir(" : "unlink(") + path + ")"))
        return e;
    lookup l = fs.resolve(base, path, p.o.c, false);
    if (!l.node)
        return l.err ? -l.err : -ENOENT;
    if (!l.dir)
        return l.name == "." ? -EINVAL : -EBUSY;
    if (l.mnt & MF_RO)
        return -EROFS;
    if (!vfs::access(*l.dir, p.o.c, 3))
        return -EACCES;
    if (!vfs::sticky_ok(*l.dir, *l.node, p.o.c))
        return -EPERM;
    if (dir)
    {
        if (l.node->type != ftype::dir)
            return -ENOTDIR;
        if (!l.node->ents.empty())
            return -ENOTEMPTY;
    }
    else if (l.node->type == ftype::dir)
        return -EISDIR;
    --l.node->nlink;
    graveyard.push_back(l.node);
    l.dir->ents.erase(l.name);
    fev(p.id, full_path(base, path), "remove");
    return 0;
}

long world::sys_mkdir(thread_t & t, inode * base, std::string const & path, unsigned mode)
{
    process_t & p = *t.p;
    if (int e = inject(t, FC_MKDIR, {EACCES, ENOSPC, EROFS, EIO, EDQUOT, ENOMEM}, "mkdir(" + path + ")"))
    {
        p.failed_paths.push_back(full_path(base, path));
        return e;
    }
    lookup l = fs.resolve(base, path, p.o.c, false);
    if (l.node || l.err == 0)
        return -EEXIST;
    if (l.err != ENOENT || !l.dir)
        return -l.err;
    if (l.mnt & MF_RO)
        return -EROFS;
    if (!vfs::access(*l.dir, p.o.c, 3))
        return -EACCES;
    if (l.mnt & MF_NOINODES)
        return -ENOSPC;
    auto n = fs.mk(ftype::dir, mode & ~p.umask_ & 01777, p.o.c.uid, p.o.c.gid);
    n->parent = l.dir;
    l.dir->ents[l.name] = n;
    fev(p.id, full_path(base, path), "mkdir");
    return 0;
}

long world::sys_rename(thread_t & t, inode * b1, std::string const & a, inode * b2, std::string const & b, unsigned flags)
{
    process_t & p = *t.p;
    if (int e = inject(t, FC_RENAME, {EACCES, EIO, ENOSPC, EROFS}, "rename(" + a + ", " + b + ")"))
        return e;
    lookup x = fs.resolve(b1, a, p.o.c, false), y = fs.resolve(b2, b, p.o.c, false);
    if (!x.node)
        return -(x.err ? x.err : ENOENT);
    if (!x.dir)
        return -EBUSY;
    if (!y.dir)
        return y.node ? -EBUSY : -(y.err ? y.err : ENOENT);
    if ((x.mnt | y.mnt) & MF_RO)
        return -EROFS;
    if (!vfs::access(*x.dir, p.o.c, 3) || !vfs::access(*y.dir, p.o.c, 3))
        return -EACCES;
    if (!vfs::sticky_ok(*x.dir, *x.node, p.o.c) || (y.node && !vfs::sticky_ok(*y.dir, *y.node, p.o.c)))
        return -EPERM;
    if (y.node && (flags & 1 /*NOREPLACE*/))
        return -EEXIST;
    if (y.node == x.node)
        return 0;
    if (y.node)
    {
        if (y.node->type == ftype::dir)
        {
            if (x.node->type != ftype::dir)
                return -EISDIR;
            if (!y.node->ents.empty())
                return -ENOTEMPTY;
        }
        else if (x.node->type == ftype::dir)
            return -ENOTDIR;
        graveyard.push_back(y.node);
    }
    for (inode * q = y.dir; q && q != fs.root.get(); q = q->parent)
        if (q == x.node.get())
            return -EINVAL;
    inode_p n = x.node;
    x.dir->ents.erase(x.name);
    y.dir->ents[y.name] = n;
    n->parent = y.dir;
    fev(p.id, full_path(b1, a), "renamed away");
    fev(p.id, full_path(b2, b), "renamed to");
    return 0;
}

long world::file_write(thread_t & t, fd_obj & f, char const * d, size_t n, int64_t at_off)
{
    process_t & p = *t.p;
    if (f.kind == fd_obj::tty || f.kind == fd_obj::sink)
    {
        bool const is_err = f.std == 2;
        if (int e = is_err ? 0 : inject(t, FC_STDIO, {ENOSPC, EIO, EPIPE}, "write(stdout)"))
            return e;
        if (n > 1)
            if (inject(t, FC_SHORT, {EAGAIN}, "shortwrite(std)"))
                n = 1 + ch.pick(S_FAULT, (uint32_t)(n - 1));
        std::string s(d, n);
        (is_err ? p.out2 : p.out1) += s;
        (is_err ? p.err_events : p.out_events).push_back({now, seq, s});
        mixin(s);
        return (long)n;
    }
    if ((f.flags & O_ACCMODE) == O_RDONLY)
        return -EBADF;
    if (f.kind == fd_obj::nul || f.kind == fd_obj::pipe_w)
        return (long)n;
    if (f.kind == fd_obj::full)
        return n ? -ENOSPC : 0;
    if (f.kind != fd_obj::file)
        return -EBADF;
    std::string pth = path_of(f.node.get());
    if (int e = inject(t, FC_WRITE, {ENOSPC, EIO, EDQUOT}, "write(" + pth + ")"))
        return e;
    if (n && (fs.mnt_of(f.node->parent) & MF_FULL))
        return -ENOSPC;
    if (n > 1 && inject(t, FC_SHORT, {EAGAIN}, "shortwrite(file)"))
        n = 1 + ch.pick(S_FAULT, (uint32_t)(n - 1));
    // a crash in the middle of a write leaves a prefix of it
    if (p.o.fp.crash_after && p.o.fp.crash_at == p.ops && n)
    {
        n = ch.pick(S_FAULT, (uint32_t)n + 1);
        stats["fault:torn write at crash"]++;
    }
    int64_t off = at_off >= 0 ? at_off : (f.flags & O_APPEND) ? (int64_t)f.node->data.size() : f.off;
    if (f.node->data.size() < (size_t)off + n)
        f.node->data.resize((size_t)off + n);
    f.node->data.replace((size_t)off, n, d, n);
    f.node->mtime = realtime();
    if (at_off < 0)
        f.off = off + (int64_t)n;
    fev(p.id, pth, "write");
    mixin(std::string(d, n));
    return (long)n;
}

long world::file_read(thread_t & t, fd_obj & f, size_t n, int64_t at_off, std::string & out)
{
    process_t & p = *t.p;
    if (f.kind == fd_obj::nul)
        return 0;
    if (f.kind == fd_obj::full)
    {
        out.assign(n, '\0');
        return (long)n;
    }
    if (f.kind == fd_obj::dirh)
        return -EISDIR;
    if (f.kind == fd_obj::pipe_r)
    {
        // a pipe delivers its (prepared) data once
        if (f.off >= (int64_t)f.node->data.size())
            return 0;
        out = f.node->data.substr((size_t)f.off, n);
        f.off += (int64_t)out.size();
        return (long)out.size();
    }
    if (f.kind != fd_obj::file)
        return -EBADF;
    if ((f.flags & O_ACCMODE) == O_WRONLY)
        return -EBADF;
    std::string pth = path_of(f.node.get());
    if (int e = inject(t, FC_READ, {EIO, EINTR}, "read(" + pth + ")"))
    {
        p.failed_paths.push_back(pth);
        return e;
    }
    if (n > 1 && inject(t, FC_SHORT, {EAGAIN}, "shortread(file)"))
        n = 1 + ch.pick(S_FAULT, (uint32_t)std::min<size_t>(n - 1, 16));
    int64_t off = at_off >= 0 ? at_off : f.off;
    if (off < (int64_t)f.node->data.size())
        out = f.node->data.substr((size_t)off, n);
    if (at_off < 0)
        f.off += (int64_t)out.size();
    mixin(out);
    return (long)out.size();
}

bool world::wake_futex(process_t & p, uint64_t uaddr, int n, int & woken)
{
    woken = 0;
    std::vector<thread_t *> w;
    for (auto & t : p.threads)
        if (t->st == tstate::blocked && t->why == thread_t::futex && t->uaddr == uaddr)
            w.push_back(t.get());
    while (n-- > 0 && !w.empty())
    {
        size_t i = sched.policy == sched_policy::run_to_block ? 0 : ch.pick(S_SCHED, (uint32_t)w.size());
        thread_t * t = w[i];
        w.erase(w.begin() + (long)i);
        t->st = tstate::ready;
        t->replied = true;
        t->ret = 0;
        t->wake_at = NEVER;
        t->why = thread_t::none;
        ++woken;
    }
    return true;
}

// --------------------------------------------------------------------------------------------------------------------
// shell commands and network
// --------------------------------------------------------------------------------------------------------------------
void world::write_net(std::string const & path, cred c, inode * cwd, std::string const & data, bool trunc, size_t idx)
{
    lookup l = fs.resolve(cwd, path, c, true);
    inode_p n = l.node;
    if (!n)
    {
        if (l.err != ENOENT || !l.dir || (l.mnt & (MF_RO | MF_NOINODES)) || !vfs::access(*l.dir, c, 3))
            return;
        n = fs.mk(ftype::reg, 0644, c.uid, c.gid);
        n->parent = l.dir;
        l.dir->ents[l.name] = n;
    }
    else if (n->type != ftype::reg || !vfs::access(*n, c, 2) || (l.mnt & MF_RO))
        return;
    ++seq;
    if (trunc)
        n->data.clear();
    if (!(l.mnt & MF_FULL))
        n->data += data;
    fev(idx < commands.size() ? -1000 - commands[idx].proc : -1, path, trunc && data.empty() ? "truncate" : "write");
    mixin(data);
    log("helper of command " + std::to_string(idx) + (trunc ? " truncates and writes " : " appends ") + std::to_string(data.size()) + " bytes to " + path);
}

void world::begin_download(size_t idx, cred c, inode * cwd)
{
    command_rec & r = commands[idx];
    net_kind k = net.kinds[ch.pick(S_NET, (uint32_t)net.kinds.size())];
    r.outcome = k;
    std::string app;
    {
        // ..._64_<name>_<version>
        std::string u = r.url;
        size_t a = u.find("_64_");
        size_t b = u.rfind('_');
        if (a != std::string::npos && b != std::string::npos && b > a + 4)
            app = u.substr(a + 4, b - a - 4);
    }
    std::string body = net.answers.count(app) ? net.answers[app] : net.default_answer;
    bool const wget = r.program == "wget";
    std::string const path = r.out_path;
    auto finish = [this, idx, c](int64_t t, int status)
    {
        (void)c;
        at(t, [this, idx, status]
        {
            commands[idx].finished = now;
            ++seq;
            mixin(0xf1u);
            log("command " + std::to_string(idx) + " finished with status " + std::to_string(status));
            for (auto & p : procs)
                for (auto & th : p->threads)
                    if (th->st == tstate::blocked && th->why == thread_t::system && th->cmd_id == (int64_t)idx)
                    {
                        th->st = tstate::ready;
                        th->replied = true;
                        th->ret = status << 8;
                        th->why = thread_t::none;
                    }
        });
    };
    auto put = [this, path, c, cwd, idx](int64_t t, std::string d, bool trunc)
    { at(t, [=, this] { write_net(path, c, cwd, d, trunc, idx); }); };
    stats["net:" + std::to_string((int)k)]++;
    static char const * names[] = {"answered fast", "answered slowly", "refused", "http error", "torn", "hang", "garbage page"};
    stats[std::string("fault:network ") + names[(int)k]]++;
    switch (k)
    {
    case net_kind::ok_fast:
        put(now + 30 * MS, body.substr(0, body.size() / 2), true);
        put(now + 40 * MS, body.substr(body.size() / 2), false);
        finish(now + 50 * MS, 0);
        break;
    case net_kind::ok_slow:
    {
        int64_t d = SEC + ch.pick(S_NET, 20) * SEC / 2;
        if (wget)
            put(now + d / 10, "", true);
        size_t cut = ch.pick(S_NET, (uint32_t)body.size() + 1);
        put(now + d / 2, body.substr(0, cut), true);
        put(now + d, body.substr(cut), false);
        finish(now + d + MS, 0);
        break;
    }
    case net_kind::refused:
        if (wget)
            put(now + 20 * MS, "", true);
        finish(now + 100 * MS, wget ? 4 : 7);
        break;
    case net_kind::http_error:
        put(now + 200 * MS, wget ? "" : "<html>503</html>", true);
        finish(now + 210 * MS, wget ? 8 : 0);
        break;
    case net_kind::torn:
    {
        size_t cut = ch.pick(S_NET, (uint32_t)body.size() + 1);
        put(now + 300 * MS, body.substr(0, cut), true);
        finish(now + 10 * SEC, wget ? 4 : 18);
        break;
    }
    case net_kind::garbage:
        put(now + 100 * MS, "<html><body>Please log in to the hotel network</body></html>\n", true);
        finish(now + 120 * MS, 0);
        break;
    case net_kind::hang:
        if (wget)
            put(now + 50 * MS, "", true);
        break; // never finishes
    }
}

void world::do_system(thread_t & t, std::string const & cmd, bool & done, long & ret)
{
    process_t & p = *t.p;
    done = true;
    command_rec r;
    r.proc = p.id;
    r.t = now;
    r.rt = realtime();
    r.cmd = cmd;
    r.seq = seq;
    r.pc = parse_shell(cmd);
    mixin(cmd);
    // Whose words are it?
    std::vector<std::string> w = r.pc.words;
    size_t i = 0;
    if (i < w.size() && (w[i] == "/usr/bin/env" || w[i] == "env"))
    {
        ++i;
        while (i < w.size() && (w[i] == "-i" || w[i].find('=') != std::string::npos))
            ++i;
    }
    if (i < w.size())
    {
        r.program = w[i];
        size_t s = r.program.rfind('/');
        if (s != std::string::npos)
            r.program = r.program.substr(s + 1);
        ++i;
    }
    bool version = false;
    for (size_t k = i; k < w.size(); ++k)
    {
        if (w[k] == "--version" || w[k] == "-V")
            version = true;
        if (w[k].find("://") != std::string::npos)
            r.url = w[k];
        if ((w[k] == "-O" || w[k] == "-o" || w[k] == "-qO" || w[k] == "--output" || w[k] == "--output-document") && k + 1 < w.size())
            r.out_path = w[k + 1];
        else if (w[k].rfind("--output-document=", 0) == 0 || w[k].rfind("--output=", 0) == 0)
            r.out_path = w[k].substr(w[k].find('=') + 1);
    }
    r.is_probe = version && r.url.empty();
    // anything that mentions a remote address, even in an unparsable command, is a request
    r.is_request = !r.is_probe && (!r.url.empty() || cmd.find("://") != std::string::npos);
    int e = inject(t, FC_SYSTEM, {EAGAIN, ENOMEM}, r.is_probe ? "system(probe)" : "system(request)");
    r.refused = e != 0;
    commands.push_back(r);
    size_t const idx = commands.size() - 1;
    log("P" + std::to_string(p.id) + "/T" + std::to_string(t.id) + " system(" + cmd + ")" + (e ? " refused" : ""));
    if (e)
    {
        commands[idx].finished = now;
        ret = -1000000 + e; // encoded: system() returns -1
        return;
    }
    bool const have = r.program == "wget" ? net.wget : r.program == "curl" ? net.curl : false;
    now += 3 * MS;
    if (!have)
    {
        commands[idx].finished = now;
        ret = 127 << 8;
        return;
    }
    if (r.is_probe)
    {
        commands[idx].finished = now;
        ret = 0;
        return;
    }
    if (!r.pc.simple || r.url.empty() || r.out_path.empty())
    {
        commands[idx].finished = now;
        ret = 2 << 8;
        return;
    }
    begin_download(idx, p.o.c, p.cwd);
    t.st = tstate::blocked;
    t.why = thread_t::system;
    t.cmd_id = (int64_t)idx;
    t.wake_at = NEVER;
    done = false;
}

void world::jump_realtime(int64_t delta)
{
    rt_offset += delta;
    for (auto & p : procs)
        for (auto & t : p->threads)
            if (t->st == tstate::blocked && t->why == thread_t::futex && t->rt_deadline != NEVER)
                t->wake_at = t->rt_deadline - rt_offset;
    ++seq;
    mixin(0xC10Cu);
    stats[delta < 0 ? "fault:clock set back" : "fault:clock set forward"]++;
    log("wall clock changed by " + std::to_string(delta / SEC) + " s");
}

void world::power_loss()
{
    // contents that were never synced may be lost: each changed file ends up old, new, empty or torn
    std::function<void(inode &)> walk = [&](inode & n)
    {
        for (auto & [k, e] : n.ents)
        {
            if (e->type == ftype::reg && (!e->has_synced || e->synced != e->data))
            {
                switch (ch.pick(S_FAULT, 4))
                {
                case 0: break;
                case 1: e->data = e->synced; break;
                case 2: e->data.clear(); break;
                default: e->data.resize(ch.pick(S_FAULT, (uint32_t)e->data.size() + 1)); break;
                }
                e->synced = e->data;
                e->has_synced = true;
                stats["fault:power loss changed a file"]++;
            }
            if (e->type == ftype::dir)
                walk(*e);
        }
    };
    walk(*fs.root);
    ++seq;
    log("power loss");
}

// --------------------------------------------------------------------------------------------------------------------
// system calls
// --------------------------------------------------------------------------------------------------------------------
bool world::syscall(thread_t & t, long & ret)
{
    process_t & p = *t.p;
    slot_t & s = shm->slots[t.slot];
    uint32_t const nr = t.pend_nr;
    uint64_t const * a = s.a;
    cred const & c = p.o.c;
    ret = -ENOSYS;
    std::string desc;
    auto tr = [&](std::string const & args)
    {
        if (trace_on)
            log("P" + std::to_string(p.id) + "/T" + std::to_string(t.id) + " " + sysname(nr) + "(" + args + ") = "
                + (ret < 0 && ret > -4096 ? std::string("-") + errname((int)-ret) : std::to_string(ret)));
    };
    auto getfd = [&](uint64_t fd) -> fd_obj *
    {
        auto it = p.fds.find((int)fd);
        return it == p.fds.end() ? nullptr : it->second.get();
    };
    auto do_stat = [&](inode * base, std::string const & path, bool follow, int outarg, bool statx)
    {
        if (int e = inject(t, FC_STAT, {EACCES, EIO, ELOOP, ENOMEM, ENAMETOOLONG}, "stat(" + path + ")"))
        {
            p.failed_paths.push_back(full_path(base, path));
            ret = e;
            return;
        }
        lookup l = fs.resolve(base, path, c, follow);
        if (!l.node)
        {
            ret = -(l.err ? l.err : ENOENT);
            return;
        }
        struct stat st;
        fill_stat(*l.node, st);
        if (statx)
        {
            struct statx sx{};
            sx.stx_mask = 0x7ff;
            sx.stx_mode = (uint16_t)st.st_mode;
            sx.stx_uid = st.st_uid;
            sx.stx_gid = st.st_gid;
            sx.stx_nlink = (uint32_t)st.st_nlink;
            sx.stx_ino = st.st_ino;
            sx.stx_size = (uint64_t)st.st_size;
            sx.stx_blksize = 4096;
            sx.stx_mtime.tv_sec = st.st_mtim.tv_sec;
            out_data(t, outarg, &sx, sizeof sx);
        }
        else
            out_data(t, outarg, &st, sizeof st);
        ret = 0;
    };
    auto do_access = [&](inode * base, std::string const & path, unsigned want, bool follow)
    {
        if (int e = inject(t, FC_STAT, {EACCES, EIO}, "access(" + path + ")"))
        {
            ret = e;
            return;
        }
        lookup l = fs.resolve(base, path, c, follow);
        if (!l.node)
            ret = -(l.err ? l.err : ENOENT);
        else if ((want & 2) && (l.mnt & MF_RO) && l.node->type != ftype::chr)
            ret = -EROFS;
        else
            ret = vfs::access(*l.node, c, want & 7) ? 0 : -EACCES;
    };
    auto fstat_fd = [&](uint64_t fd, int outarg)
    {
        fd_obj * f = getfd(fd);
        if (!f)
        {
            ret = -EBADF;
            return;
        }
        struct stat st;
        if (f->node)
            fill_stat(*f->node, st);
        else
        {
            memset(&st, 0, sizeof st);
            st.st_dev = 9;
            st.st_ino = 1 + fd;
            st.st_mode = f->kind == fd_obj::tty ? (S_IFCHR | 0620) : (S_IFIFO | 0600);
            st.st_rdev = f->kind == fd_obj::tty ? makedev(136, 0) : 0;
            st.st_blksize = f->kind == fd_obj::tty ? 1024 : 4096;
        }
        out_data(t, outarg, &st, sizeof st);
        ret = 0;
    };
    long err = 0;
    switch (nr)
    {
    // ---- pseudo calls ----
    case PS_START:
        ret = 0;
        t.tid = (int)a[0];
        tr("");
        return true;
    case PS_SPAWN:
    {
        if (int e = inject(t, FC_SPAWN, {EAGAIN}, "pthread_create()"))
        {
            ret = e;
            tr("");
            return true;
        }
        int slot = alloc_slot();
        if (slot < 0)
        {
            ret = -EAGAIN;
            return true;
        }
        ret = slot;
        tr("");
        return true;
    }
    case PS_SPAWN_DONE:
    {
        ret = 0;
        int slot = (int)a[0];
        if (a[1] != 0)
        {
            slot_used[slot] = false;
            return true;
        }
        ++p.threads_created;
        auto nt = std::make_unique<thread_t>();
        nt->p = &p;
        nt->id = (int)p.threads.size();
        nt->slot = slot;
        thread_t * np = nt.get();
        p.threads.push_back(std::move(nt));
        if (sched.policy == sched_policy::pct)
            prio[np] = 1000 + ch.pick(S_SCHED, 1000);
        if (sched.max_yield)
            shm->slots[slot].yield_in = 1 + ch.pick(S_SCHED, sched.max_yield);
        tr(std::to_string(np->id));
        if (!wait_request(p, slot))
            return true;
        settle(*np);
        return true;
    }
    case PS_THREAD_EXIT:
    {
        ret = 0;
        tr("");
        s.ret = 0;
        s.go.store(1, std::memory_order_release);
        sim_raw_syscall(SYS_futex, (long)&s.go, FUTEX_WAKE, 1, 0, 0, 0);
        // let the real thread disappear before anything else runs
        for (int k = 0; k < 2'000'000 && sim_raw_syscall(SYS_tgkill, p.pid, t.tid, 0, 0, 0, 0) == 0; ++k)
            sim_raw_syscall(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
        thread_gone(t);
        return true;
    }
    case PS_JOIN:
    {
        for (auto & o : p.threads)
            if (o->slot == (int)a[0] && o->st != tstate::dead && o.get() != &t)
            {
                t.st = tstate::blocked;
                t.why = thread_t::join;
                t.join_slot = o->slot;
                t.wake_at = NEVER;
                tr("blocked");
                return false;
            }
        ret = 0;
        return true;
    }
    case PS_SYSTEM:
    {
        bool done;
        std::string cmd(s.data, s.inlen);
        do_system(t, cmd, done, ret);
        return done;
    }
    case PS_FORK:
    {
        std::string cmd(s.data, s.inlen);
        command_rec r;
        r.proc = p.id;
        r.t = now;
        r.rt = realtime();
        r.cmd = cmd;
        r.seq = seq;
        r.pc = parse_shell(cmd);
        r.is_request = cmd.find("://") != std::string::npos;
        r.refused = true;
        commands.push_back(r);
        ret = 0;
        stats["note:program start other than system()"]++;
        tr(cmd);
        return true;
    }
    case PS_CLOCK:
    {
        int64_t v;
        switch ((int)a[0])
        {
        case CLOCK_REALTIME: case CLOCK_REALTIME_COARSE: case 11 /*TAI*/: v = realtime(); break;
        default: v = now; break;
        }
        ret = v;
        return true;
    }
    case PS_YIELD:
        if (sched.max_yield)
            s.yield_in = 1 + ch.pick(S_SCHED, sched.max_yield);
        ret = 0;
        return true;
    case PS_REPORT:
    {
        std::string tag = arg_str(t, 0);
        std::string val(s.data + tag.size() + 1, s.inlen - tag.size() - 1);
        p.reports.emplace_back(tag, val);
        mixin(tag);
        mixin(val);
        ret = 0;
        if (trace_on)
            log("P" + std::to_string(p.id) + "/T" + std::to_string(t.id) + " reports " + tag + ": " + val.substr(0, 300));
        return true;
    }
    case PS_MARK:
        p.marks.push_back({now, t.stalls, (int)a[0], seq});
        ret = 0;
        tr(std::to_string(a[0]));
        return true;
    case PS_RANDOM:
        ret = (long)(ch.pick(S_NET, 0x7fffffff));
        return true;
    case PS_ABORT:
        p.abort_msg = std::string(s.data, s.inlen);
        tr(p.abort_msg);
        mixin(p.abort_msg);
        p.signal_ = SIGABRT;
        kill_process(p, pend::aborted);
        return true;
    case PS_CRASH:
        p.signal_ = (int)a[0];
        p.abort_msg = "fatal signal " + std::to_string(a[0]);
        tr(p.abort_msg);
        if ((int)a[0] == SIGXCPU)
        {
            p.abort_msg = "used up its CPU time without a system call";
            kill_process(p, pend::hung);
        }
        else
            kill_process(p, pend::crashed);
        return true;

    // ---- process ----
    case SYS_exit_group:
    {
        p.exit_code = (int)a[0] & 255;
        tr(std::to_string(p.exit_code));
        p.end = pend::exited;
        s.ret = 0;
        s.go.store(1, std::memory_order_release);
        sim_raw_syscall(SYS_futex, (long)&s.go, FUTEX_WAKE, 1, 0, 0, 0);
        int st;
        ::waitpid(p.pid, &st, 0);
        reap(p);
        return true;
    }
    case SYS_getpid: ret = 1000 + p.id; return true;
    case SYS_gettid: ret = 1000 + p.id * 16 + t.id; return true;
    case SYS_getppid: ret = 1; return true;
    case SYS_getuid: case SYS_geteuid: ret = c.uid; return true;
    case SYS_getgid: case SYS_getegid: ret = c.gid; return true;
    case SYS_umask: ret = p.umask_; p.umask_ = (unsigned)a[0] & 0777; return true;
    case SYS_sched_yield: ret = 0; return true;
    case SYS_getrandom:
    {
        size_t n = std::min<size_t>(a[1], 256);
        std::string b(n, '\0');
        for (auto & x : b)
            x = (char)ch.pick(S_NET, 256);
        out_data(t, 0, b.data(), n);
        ret = (long)n;
        return true;
    }
    case SYS_uname:
    {
        utsname u{};
        strcpy(u.sysname, "Linux");
        strcpy(u.nodename, "sim");
        strcpy(u.release, "6.0.0");
        strcpy(u.machine, "x86_64");
        out_data(t, 0, &u, sizeof u);
        ret = 0;
        return true;
    }
    case SYS_clock_gettime:
    {
        timespec ts;
        int64_t v = (int)a[0] == CLOCK_REALTIME ? realtime() : now;
        ts.tv_sec = v / SEC;
        ts.tv_nsec = v % SEC;
        out_data(t, 1, &ts, sizeof ts);
        ret = 0;
        return true;
    }
    case SYS_nanosleep:
    case SYS_clock_nanosleep:
    {
        timespec ts;
        memcpy(&ts, s.data, sizeof ts);
        int64_t d = ts.tv_sec * SEC + ts.tv_nsec;
        bool const abs = nr == SYS_clock_nanosleep && (a[1] & TIMER_ABSTIME);
        int64_t target = abs ? ((int)a[0] == CLOCK_REALTIME ? d - rt_offset : d) : now + d;
        t.st = tstate::blocked;
        t.why = thread_t::sleep;
        t.wake_at = target;
        tr(std::to_string(d / MS) + "ms");
        return false;
    }
    case SYS_futex:
    {
        int const cmd = (int)a[1] & FUTEX_CMD_MASK;
        if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET)
        {
            // the word counts as it is now, not as it was when the thread got here
            s.ret = RELOAD;
            s.go.store(1, std::memory_order_release);
            sim_raw_syscall(SYS_futex, (long)&s.go, FUTEX_WAKE, 1, 0, 0, 0);
            if (!wait_request(p, t.slot))
                return false;
            uint32_t val;
            memcpy(&val, s.data, 4);
            if (val != (uint32_t)a[2])
            {
                ret = -EAGAIN;
                tr("wait, value changed");
                return true;
            }
            if (int e = inject(t, FC_FUTEX, {EINTR}, "futex(wait)"))
            {
                ret = e;
                return true;
            }
            int64_t wake = NEVER;
            if (a[3] && s.inlen >= 4 + sizeof(timespec))
            {
                timespec ts;
                memcpy(&ts, s.data + 4, sizeof ts);
                int64_t d = ts.tv_sec > 4'000'000'000 ? NEVER : ts.tv_sec * SEC + ts.tv_nsec;
                if (d != NEVER)
                {
                    if (cmd == FUTEX_WAIT)
                        wake = now + d;
                    else
                        wake = ((int)a[1] & FUTEX_CLOCK_REALTIME) ? d - rt_offset : d;
                }
            }
            if (wake <= now)
            {
                ret = -ETIMEDOUT;
                tr("wait, timed out");
                return true;
            }
            t.st = tstate::blocked;
            t.why = thread_t::futex;
            t.uaddr = a[0];
            t.wake_at = wake;
            // realtime deadlines move with the clock: handled by the caller through rt hooks (see retime)
            t.rt_deadline = (cmd == FUTEX_WAIT_BITSET && ((int)a[1] & FUTEX_CLOCK_REALTIME) && wake != NEVER) ? wake + rt_offset : NEVER;
            if (trace_on)
                log("P" + std::to_string(p.id) + "/T" + std::to_string(t.id) + " futex(wait) blocks"
                    + (wake == NEVER ? " without limit" : " for " + std::to_string((wake - now) / MS) + " ms"));
            return false;
        }
        if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET)
        {
            int woken;
            wake_futex(p, a[0], (int)a[2] < 0 ? 1 << 20 : (int)a[2], woken);
            ret = woken;
            tr("wake");
            return true;
        }
        stats["note:unmodelled futex operation"]++;
        ret = -ENOSYS;
        return true;
    }

    // ---- files ----
    case SYS_open:
    case SYS_openat:
    case SYS_creat:
    {
        inode * b = nr == SYS_openat ? base_of(p, (int64_t)(int)a[0], err) : p.cwd;
        std::string path = arg_str(t, 0);
        if (!path.empty() && path[0] == '/')
            b = fs.root.get();
        else if (!b)
        {
            ret = err;
            return true;
        }
        int flags = nr == SYS_openat ? (int)a[2] : nr == SYS_open ? (int)a[1] : O_CREAT | O_WRONLY | O_TRUNC;
        unsigned mode = (unsigned)(nr == SYS_openat ? a[3] : nr == SYS_open ? a[2] : a[1]);
        ret = sys_open(t, b, path, flags, mode);
        std::string fl = (flags & O_ACCMODE) == O_RDONLY ? "read" : (flags & O_ACCMODE) == O_WRONLY ? "write" : "rdwr";
        if (flags & O_CREAT) fl += "|create";
        if (flags & O_EXCL) fl += "|excl";
        if (flags & O_TRUNC) fl += "|trunc";
        if (flags & O_APPEND) fl += "|append";
        if (flags & O_DIRECTORY) fl += "|dir";
        tr("\"" + path + "\", " + fl);
        mixin(path);
        return true;
    }
    case SYS_close:
    {
        auto it = p.fds.find((int)a[0]);
        if (it == p.fds.end())
        {
            ret = -EBADF;
            return true;
        }
        ret = 0;
        if ((int)a[0] > 2)
            ret = inject(t, FC_CLOSE, {EIO, EINTR, ENOSPC}, "close()");
        p.fds.erase(it);
        tr(std::to_string(a[0]));
        return true;
    }
    case SYS_read:
    case SYS_readv:
    case SYS_pread64:
    {
        fd_obj * f = getfd(a[0]);
        if (!f)
        {
            ret = -EBADF;
            return true;
        }
        std::string out;
        if (f->std == 0)
        {
            if (!t.started_blocking)
            {
                ++p.in_reads;
                p.in_events.push_back({now, seq, ""});
                if (f->kind == fd_obj::tty)
                {
                    // the user takes a while
                    int64_t d = ch.pick(S_NET, 4) * 2 * SEC + 500 * MS;
                    t.st = tstate::blocked;
                    t.why = thread_t::stdin_;
                    t.wake_at = now + d;
                    t.stalls += d;
                    p.stalls += d;
                    log("P" + std::to_string(p.id) + " waits for the user");
                    return false;
                }
            }
            size_t n = std::min<size_t>(a[2], p.o.input.size() - p.in_pos);
            if (f->kind == fd_obj::tty)
            {
                size_t nl = p.o.input.find('\n', p.in_pos);
                if (nl != std::string::npos)
                    n = std::min(n, nl + 1 - p.in_pos);
            }
            out = p.o.input.substr(p.in_pos, n);
            p.in_pos += n;
            p.in_events.back().text += out;
            ret = (long)n;
            mixin(out);
        }
        else if (f->kind == fd_obj::tty || f->kind == fd_obj::sink)
            ret = -EBADF;
        else
            ret = file_read(t, *f, a[2], nr == SYS_pread64 ? (int64_t)a[3] : -1, out);
        if (!out.empty())
            out_data(t, 1, out.data(), out.size());
        tr(std::to_string(a[0]) + (f->node ? " " + path_of(f->node.get()) : ""));
        return true;
    }
    case SYS_write:
    case SYS_writev:
    case SYS_pwrite64:
    {
        fd_obj * f = getfd(a[0]);
        if (!f)
        {
            ret = -EBADF;
            return true;
        }
        ret = file_write(t, *f, s.data, s.inlen, nr == SYS_pwrite64 ? (int64_t)a[3] : -1);
        if (trace_on)
            tr(std::to_string(a[0]) + (f->node ? " " + path_of(f->node.get()) : "") + ", \"" + std::string(s.data, std::min<size_t>(s.inlen, 60)) + "\"");
        return true;
    }
    case SYS_lseek:
    {
        fd_obj * f = getfd(a[0]);
        if (!f || f->kind != fd_obj::file)
        {
            ret = f ? (f->kind == fd_obj::dirh ? 0 : -ESPIPE) : -EBADF;
            if (f && f->kind == fd_obj::dirh)
                f->pos = 0;
            return true;
        }
        int64_t o = (int64_t)a[1];
        if ((int)a[2] == SEEK_CUR)
            o += f->off;
        else if ((int)a[2] == SEEK_END)
            o += (int64_t)f->node->data.size();
        if (o < 0)
            ret = -EINVAL;
        else
            ret = f->off = o;
        return true;
    }
    case SYS_stat: do_stat(p.cwd, arg_str(t, 0), true, 1, false); tr(arg_str(t, 0)); return true;
    case SYS_lstat: do_stat(p.cwd, arg_str(t, 0), false, 1, false); tr(arg_str(t, 0)); return true;
    case SYS_fstat: fstat_fd(a[0], 1); tr(std::to_string(a[0])); return true;
    case SYS_newfstatat:
    case SYS_statx:
    {
        std::string path = arg_str(t, 0);
        int const flags = nr == SYS_newfstatat ? (int)a[3] : (int)a[2];
        int const outarg = nr == SYS_newfstatat ? 2 : 4;
        if (path.empty() && (flags & AT_EMPTY_PATH))
        {
            if (nr == SYS_statx)
            {
                fd_obj * f = getfd(a[0]);
                struct statx sx{};
                sx.stx_mask = 0x7ff;
                if (f && f->node)
                {
                    struct stat st;
                    fill_stat(*f->node, st);
                    sx.stx_mode = (uint16_t)st.st_mode;
                    sx.stx_ino = st.st_ino;
                    sx.stx_size = (uint64_t)st.st_size;
                }
                out_data(t, outarg, &sx, sizeof sx);
                ret = f ? 0 : -EBADF;
            }
            else
                fstat_fd(a[0], outarg);
            tr("fd " + std::to_string((int)a[0]));
            return true;
        }
        inode * b = base_of(p, (int64_t)(int)a[0], err);
        if (!path.empty() && path[0] == '/')
            b = fs.root.get();
        else if (!b)
        {
            ret = err;
            return true;
        }
        std::string const keep = path;
        do_stat(b, path, !(flags & AT_SYMLINK_NOFOLLOW), outarg, nr == SYS_statx);
        tr("\"" + keep + "\"");
        return true;
    }
    case SYS_access: do_access(p.cwd, arg_str(t, 0), (unsigned)a[1], true); tr(arg_str(t, 0)); return true;
    case SYS_faccessat:
    case SYS_faccessat2:
    {
        inode * b = base_of(p, (int64_t)(int)a[0], err);
        std::string path = arg_str(t, 0);
        if (!path.empty() && path[0] == '/')
            b = fs.root.get();
        if (!b)
            ret = err;
        else
            do_access(b, path, (unsigned)a[2], !(nr == SYS_faccessat2 && (a[3] & AT_SYMLINK_NOFOLLOW)));
        tr(path);
        return true;
    }
    case SYS_mkdir: ret = sys_mkdir(t, p.cwd, arg_str(t, 0), (unsigned)a[1]); tr(arg_str(t, 0)); return true;
    case SYS_mkdirat:
    {
        inode * b = base_of(p, (int64_t)(int)a[0], err);
        std::string path = arg_str(t, 0);
        if (!path.empty() && path[0] == '/')
            b = fs.root.get();
        ret = b ? sys_mkdir(t, b, path, (unsigned)a[2]) : err;
        tr(path);
        return true;
    }
    case SYS_rmdir: ret = sys_unlink(t, p.cwd, arg_str(t, 0), true); tr(arg_str(t, 0)); return true;
    case SYS_unlink: ret = sys_unlink(t, p.cwd, arg_str(t, 0), false); tr(arg_str(t, 0)); return true;
    case SYS_unlinkat:
    {
        inode * b = base_of(p, (int64_t)(int)a[0], err);
        std::string path = arg_str(t, 0);
        if (!path.empty() && path[0] == '/')
            b = fs.root.get();
        ret = b ? sys_unlink(t, b, path, (a[2] & AT_REMOVEDIR) != 0) : err;
        tr(path + ((a[2] & AT_REMOVEDIR) ? ", dir" : ""));
        return true;
    }
    case SYS_rename: ret = sys_rename(t, p.cwd, arg_str(t, 0), p.cwd, arg_str(t, 1), 0); tr(arg_str(t, 0) + ", " + arg_str(t, 1)); return true;
    case SYS_renameat:
    case SYS_renameat2:
    {
        long e2;
        inode * b1 = base_of(p, (int64_t)(int)a[0], err);
        inode * b2 = base_of(p, (int64_t)(int)a[2], e2);
        std::string x = arg_str(t, 0), y = arg_str(t, 1);
        if (!x.empty() && x[0] == '/')
            b1 = fs.root.get();
        if (!y.empty() && y[0] == '/')
            b2 = fs.root.get();
        ret = !b1 ? err : !b2 ? e2 : sys_rename(t, b1, x, b2, y, nr == SYS_renameat2 ? (unsigned)a[4] : 0);
        tr(x + ", " + y);
        return true;
    }
    case SYS_symlink:
    case SYS_symlinkat:
    {
        std::string target = arg_str(t, 0), path = arg_str(t, 1);
        inode * b = nr == SYS_symlink ? p.cwd : base_of(p, (int64_t)(int)a[1], err);
        if (!path.empty() && path[0] == '/')
            b = fs.root.get();
        lookup l = b ? fs.resolve(b, path, c, false) : lookup{};
        if (l.node)
            ret = -EEXIST;
        else if (!l.dir)
            ret = -(l.err ? l.err : ENOENT);
        else if (l.mnt & MF_RO)
            ret = -EROFS;
        else if (!vfs::access(*l.dir, c, 3))
            ret = -EACCES;
        else
        {
            auto n = fs.mk(ftype::lnk, 0777, c.uid, c.gid);
            n->data = target;
            n->parent = l.dir;
            l.dir->ents[l.name] = n;
            fev(p.id, full_path(b, path), "symlink");
            ret = 0;
        }
        return true;
    }
    case SYS_link:
    case SYS_linkat:
    {
        std::string x = arg_str(t, 0), y = arg_str(t, 1);
        inode * b1 = nr == SYS_link ? p.cwd : base_of(p, (int64_t)(int)a[0], err);
        inode * b2 = nr == SYS_link ? p.cwd : base_of(p, (int64_t)(int)a[2], err);
        if (!b1 || !b2)
        {
            ret = -EBADF;
            return true;
        }
        lookup l = fs.resolve(b1, x, c, false), m = fs.resolve(b2, y, c, false);
        if (!l.node)
            ret = -(l.err ? l.err : ENOENT);
        else if (m.node)
            ret = -EEXIST;
        else if (!m.dir)
            ret = -(m.err ? m.err : ENOENT);
        else if (l.node->type == ftype::dir)
            ret = -EPERM;
        else if (m.mnt & MF_RO)
            ret = -EROFS;
        else if (!vfs::access(*m.dir, c, 3))
            ret = -EACCES;
        else
        {
            ++l.node->nlink;
            m.dir->ents[m.name] = l.node;
            fev(p.id, full_path(b2, y), "link");
            ret = 0;
        }
        return true;
    }
    case SYS_readlink:
    case SYS_readlinkat:
    {
        inode * b = nr == SYS_readlink ? p.cwd : base_of(p, (int64_t)(int)a[0], err);
        std::string path = arg_str(t, 0);
        if (!path.empty() && path[0] == '/')
            b = fs.root.get();
        lookup l = b ? fs.resolve(b, path, c, false) : lookup{};
        if (!l.node)
            ret = -(l.err ? l.err : ENOENT);
        else if (l.node->type != ftype::lnk)
            ret = -EINVAL;
        else
        {
            size_t n = std::min<size_t>(l.node->data.size(), nr == SYS_readlink ? a[2] : a[3]);
            out_data(t, nr == SYS_readlink ? 1 : 2, l.node->data.data(), n);
            ret = (long)n;
        }
        tr(path);
        return true;
    }
    case SYS_getdents64:
    {
        fd_obj * f = getfd(a[0]);
        if (!f || f->kind != fd_obj::dirh)
        {
            ret = f ? -ENOTDIR : -EBADF;
            return true;
        }
        if (int e = inject(t, FC_READDIR, {EIO, ENOMEM}, "getdents(" + path_of(f->node.get()) + ")"))
        {
            ret = e;
            return true;
        }
        if (f->pos == 0)
        {
            f->listing.clear();
            f->listing.emplace_back(".", f->node);
            f->listing.emplace_back("..", f->node);
            for (auto & [k, e] : f->node->ents)
                f->listing.emplace_back(k, e);
        }
        std::string out;
        while (f->pos < f->listing.size())
        {
            auto & [name, n] = f->listing[f->pos];
            size_t reclen = (19 + name.size() + 1 + 7) / 8 * 8;
            if (out.size() + reclen > a[2])
                break;
            std::string rec(reclen, '\0');
            uint64_t ino = n->ino;
            int64_t off = (int64_t)f->pos + 1;
            unsigned short rl = (unsigned short)reclen;
            unsigned char ty = n->type == ftype::reg ? DT_REG : n->type == ftype::dir ? DT_DIR : n->type == ftype::lnk ? DT_LNK
                             : n->type == ftype::fifo ? DT_FIFO : n->type == ftype::chr ? DT_CHR : DT_SOCK;
            memcpy(&rec[0], &ino, 8);
            memcpy(&rec[8], &off, 8);
            memcpy(&rec[16], &rl, 2);
            rec[18] = (char)ty;
            memcpy(&rec[19], name.data(), name.size());
            out += rec;
            ++f->pos;
        }
        out_data(t, 1, out.data(), out.size());
        ret = (long)out.size();
        tr(path_of(f->node.get()));
        return true;
    }
    case SYS_getcwd:
    {
        std::string d = path_of(p.cwd);
        if (d.find("(gone)") != std::string::npos)
            ret = -ENOENT;
        else
        {
            out_data(t, 0, d.c_str(), d.size() + 1);
            ret = (long)d.size() + 1;
        }
        return true;
    }
    case SYS_chdir:
    {
        lookup l = fs.resolve(p.cwd, arg_str(t, 0), c, true);
        if (!l.node)
            ret = -(l.err ? l.err : ENOENT);
        else if (l.node->type != ftype::dir)
            ret = -ENOTDIR;
        else
        {
            p.cwd = l.node.get();
            ret = 0;
        }
        return true;
    }
    case SYS_chmod:
    case SYS_fchmodat:
    case SYS_fchmod:
    {
        inode_p n;
        if (nr == SYS_fchmod)
        {
            fd_obj * f = getfd(a[0]);
            n = f ? f->node : nullptr;
        }
        else
            n = fs.resolve(p.cwd, arg_str(t, 0), c, true).node;
        if (!n)
            ret = -ENOENT;
        else if (c.uid != 0 && c.uid != n->uid)
            ret = -EPERM;
        else
        {
            n->mode = (unsigned)(nr == SYS_fchmodat ? a[2] : a[1]) & 07777;
            ret = 0;
        }
        return true;
    }
    case SYS_chown: case SYS_lchown: case SYS_fchown: case SYS_fchownat: ret = c.uid == 0 ? 0 : -EPERM; return true;
    case SYS_utimensat: case SYS_utime: case SYS_utimes: ret = 0; return true;
    case SYS_fsync:
    case SYS_fdatasync:
    {
        fd_obj * f = getfd(a[0]);
        if (!f)
            ret = -EBADF;
        else if (int e = inject(t, FC_OTHERFS, {EIO, ENOSPC}, "fsync()"))
            ret = e;
        else
        {
            if (f->node)
            {
                f->node->synced = f->node->data;
                f->node->has_synced = true;
            }
            ret = 0;
        }
        return true;
    }
    case SYS_truncate:
    case SYS_ftruncate:
    {
        inode_p n;
        if (nr == SYS_ftruncate)
        {
            fd_obj * f = getfd(a[0]);
            n = f ? f->node : nullptr;
        }
        else
        {
            lookup l = fs.resolve(p.cwd, arg_str(t, 0), c, true);
            n = l.node;
            if (n && (!vfs::access(*n, c, 2) || (l.mnt & MF_RO)))
            {
                ret = -EACCES;
                return true;
            }
        }
        if (!n || n->type != ftype::reg)
            ret = -EINVAL;
        else
        {
            n->data.resize((size_t)a[1]);
            fev(p.id, path_of(n.get()), "truncate");
            ret = 0;
        }
        return true;
    }
    case SYS_flock: ret = 0; return true;
    case SYS_statfs: case SYS_fstatfs:
    {
        struct statfs sf{};
        sf.f_type = 0xEF53;
        sf.f_bsize = 4096;
        sf.f_blocks = sf.f_bfree = sf.f_bavail = 1 << 20;
        sf.f_namelen = 255;
        out_data(t, 1, &sf, sizeof sf);
        ret = 0;
        return true;
    }
    case SYS_dup: case SYS_dup2: case SYS_dup3:
    {
        auto it = p.fds.find((int)a[0]);
        if (it == p.fds.end())
            ret = -EBADF;
        else if (nr == SYS_dup)
            ret = new_fd(p, it->second);
        else
        {
            auto o = it->second;
            p.fds[(int)a[1]] = o;
            ret = (long)a[1];
        }
        return true;
    }
    case SYS_fcntl:
    {
        auto it = p.fds.find((int)a[0]);
        if (it == p.fds.end())
        {
            ret = -EBADF;
            return true;
        }
        switch ((int)a[1])
        {
        case F_GETFL: ret = it->second->flags & ~(O_CREAT | O_EXCL | O_TRUNC | O_CLOEXEC); break;
        case F_GETFD: ret = 0; break;
        case F_SETFD: case F_SETFL: case F_SETLK: case F_SETLKW: ret = 0; break;
        case F_DUPFD: case F_DUPFD_CLOEXEC: ret = new_fd(p, it->second, (int)a[2]); break;
        default: ret = -EINVAL;
        }
        return true;
    }
    case SYS_ioctl:
    {
        fd_obj * f = getfd(a[0]);
        if (!f)
        {
            ret = -EBADF;
            return true;
        }
        bool const tty = f->kind == fd_obj::tty;
        if (a[1] == TCGETS)
        {
            if (!tty)
                ret = -ENOTTY;
            else if (int e = inject(t, FC_IOCTL, {EIO}, "ioctl(TCGETS)"))
                ret = e;
            else
            {
                char kt[36] = {};
                out_data(t, 2, kt, sizeof kt);
                ret = 0;
            }
        }
        else if (a[1] == TIOCGWINSZ)
        {
            if (!tty)
                ret = -ENOTTY;
            else if (int e = inject(t, FC_IOCTL, {EIO, EINTR}, "ioctl(TIOCGWINSZ)"))
                ret = e;
            else
            {
                int w = p.o.widths[std::min(p.width_pos, p.o.widths.size() - 1)];
                ++p.width_pos;
                if (w < 0)
                    ret = -EINVAL;
                else
                {
                    winsize ws{};
                    ws.ws_col = (unsigned short)w;
                    ws.ws_row = 24;
                    out_data(t, 2, &ws, sizeof ws);
                    ret = 0;
                }
            }
        }
        else
            ret = -ENOTTY;
        tr(std::to_string(a[0]));
        return true;
    }
    case SYS_poll:
    {
        pollfd fds[16];
        size_t n = std::min<size_t>(a[1], 16);
        memcpy(fds, s.data, n * sizeof(pollfd));
        ret = 0;
        for (size_t i = 0; i < n; ++i)
        {
            fds[i].revents = fds[i].events & (POLLIN | POLLOUT);
            if (fds[i].revents)
                ++ret;
        }
        out_data(t, 0, fds, n * sizeof(pollfd));
        return true;
    }
    case SYS_execve:
    case SYS_execveat:
        stats["note:exec"]++;
        ret = -EACCES;
        return true;
    case SYS_socket: case SYS_connect: case SYS_sendto:
    {
        command_rec r;
        r.proc = p.id;
        r.t = now;
        r.rt = realtime();
        r.cmd = "direct network access";
        r.is_request = true;
        r.refused = true;
        r.seq = seq;
        if (nr == SYS_socket)
            commands.push_back(r);
        ret = -EACCES;
        return true;
    }
    default:
        stats[std::string("note:unmodelled ") + sysname(nr)]++;
        ret = -ENOSYS;
        tr("unmodelled");
        return true;
    }
}
} // namespace sim
