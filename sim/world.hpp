// The simulated machine: kernel, clock, scheduler, shell and network, fault injection. Runs in the parent process.
#pragma once
#include "choices.hpp"
#include "proto.hpp"
#include "vfs.hpp"

#include <functional>
#include <set>
#include <string>
#include <sys/types.h>

namespace sim
{
constexpr int64_t US = 1000, MS = 1000 * US, SEC = 1000 * MS, HOUR = 3600 * SEC, DAY = 24 * HOUR;
constexpr int64_t NEVER = INT64_MAX;

// fault classes
enum fclass : unsigned
{
    FC_OPEN = 1, FC_STAT = 2, FC_MKDIR = 4, FC_REMOVE = 8, FC_READ = 16, FC_WRITE = 32, FC_CLOSE = 64, FC_READDIR = 128,
    FC_IOCTL = 256, FC_RENAME = 512, FC_SYSTEM = 1024, FC_SPAWN = 2048, FC_STDIO = 4096, FC_FUTEX = 8192,
    FC_SHORT = 16384, FC_OTHERFS = 32768,
    FC_FS = FC_OPEN | FC_STAT | FC_MKDIR | FC_REMOVE | FC_READ | FC_WRITE | FC_CLOSE | FC_READDIR | FC_RENAME | FC_OTHERFS
};

struct fault_plan
{
    unsigned classes{};      // what may fail
    uint32_t num{0}, den{1000}; // rate per matching call
    unsigned max{1000};      // at most that many
    int at{-1};              // additionally: fail the matching call with this index
    int crash_at{-1};        // kill the process at its n-th system call
    bool crash_after{};      // after its effect (writes: in the middle of it)
    unsigned fired{};
    unsigned matched{};
    bool log_required{};     // remember which calls failed
};

enum class stdkind { tty, pipe, closed };
enum class net_kind { ok_fast, ok_slow, refused, http_error, torn, hang, garbage };

struct parsed_command
{
    bool simple{};             // exactly one simple command, no expansions or operators
    std::string problem;       // why not
    std::vector<std::string> words;
    std::vector<std::pair<std::string, std::string>> redirects; // operator, target
};
parsed_command parse_shell(std::string const & cmd);

struct proc_opts
{
    std::string name;                 // program name, for traces
    std::function<int()> body;
    cred c{};
    std::string cwd{"/home/u"};
    stdkind in{stdkind::pipe}, out{stdkind::pipe}, err{stdkind::pipe};
    std::string input;                // what stdin delivers
    std::vector<int> widths{80};      // terminal width at successive queries (-1: query fails)
    fault_plan fp{};
    int64_t start_delay{0};
};

struct thread_t;
struct process_t;

struct command_rec
{
    int proc{};
    int64_t t{}, rt{};
    std::string cmd;
    parsed_command pc;
    bool is_probe{}, is_request{};
    std::string program, url, out_path;
    net_kind outcome{};
    int64_t finished{NEVER};
    bool refused{}; // system() itself failed
    int seq{};
};

struct mark_rec { int64_t t; int64_t stalls; int value; int seq; };
struct stdio_rec { int64_t t; int seq; std::string text; };

struct fd_obj
{
    enum kind_t { file, tty, sink, source, nul, full, pipe_r, pipe_w, dirh } kind{file};
    inode_p node;
    int64_t off{};
    int flags{};
    int std{-1}; // 0,1,2: original stream
    std::vector<std::pair<std::string, inode_p>> listing;
    size_t pos{};
};

enum class tstate { ready, blocked, running, dead };
struct thread_t
{
    process_t * p{};
    int id{};
    int slot{};
    tstate st{tstate::ready};
    bool replied{};          // blocked operation finished: ret holds the answer
    long ret{};
    uint32_t pend_nr{};
    int64_t wake_at{NEVER};
    enum wk { none, futex, sleep, system, join, stdin_ } why{none};
    uint64_t uaddr{};
    int join_slot{-1};
    int64_t cmd_id{-1};
    bool started_blocking{};
    int64_t stalls{};
    int tid{};
    int64_t rt_deadline{NEVER};
};

enum class pend { running, exited, crashed, killed, aborted, hung };

struct process_t
{
    int id{};
    proc_opts o;
    pid_t pid{-1};
    std::vector<std::unique_ptr<thread_t>> threads;
    std::map<int, std::shared_ptr<fd_obj>> fds;
    inode * cwd{};
    unsigned umask_{022};
    pend end{pend::running};
    int exit_code{-1};
    int signal_{0};
    std::string abort_msg;
    std::string out1, out2;
    size_t in_pos{};
    bool in_eof_seen{};
    int in_reads{};                  // read attempts on stdin
    std::vector<stdio_rec> in_events, err_events, out_events;
    std::vector<std::pair<std::string, std::string>> reports;
    std::vector<mark_rec> marks;
    std::vector<std::string> failures; // injected failures, readable
    std::vector<std::string> failed_paths;
    int64_t t0{}, t1{};
    int seq0{}, seq1{};
    int64_t stalls{};                // simulated time this process was stalled by injection or waiting for the user
    int ops{};
    size_t width_pos{};
    int threads_created{};
    size_t leaked_fds{};             // beyond 0..2, at exit
    bool started{};
    std::string report(std::string const & tag) const
    {
        for (auto it = reports.rbegin(); it != reports.rend(); ++it)
            if (it->first == tag)
                return it->second;
        return {};
    }
    bool has_report(std::string const & tag) const
    {
        for (auto & r : reports)
            if (r.first == tag)
                return true;
        return false;
    }
};

struct net_cfg
{
    bool wget{true}, curl{true};
    std::map<std::string, std::string> answers; // app name -> body
    std::string default_answer{"UNREGISTERED_APP\n1.1.1\n"};
    std::vector<net_kind> kinds{net_kind::ok_fast};
};

enum class sched_policy { run_to_block, random, pct };
struct sched_cfg
{
    sched_policy policy{sched_policy::run_to_block};
    uint32_t switch_num{1}, switch_den{2};
    uint32_t stall_num{0}, stall_den{1000}; // chance per operation that a thread is stalled
    std::vector<int64_t> stalls{10 * MS, SEC, 5 * SEC};
    uint32_t max_yield{0};                  // allocation yield points: up to that many allocations apart
};

struct timed_event
{
    int64_t t;
    uint64_t seq;
    std::function<void()> fn;
};

struct file_event // a change of the simulated file system, in order
{
    int seq;
    int proc; // -1: helper program, -2: environment
    std::string path, op;
};

class world
{
public:
    explicit world(choices & c);
    ~world();
    world(world const &) = delete;

    // ---- set up ----
    choices & ch;
    vfs fs;
    int64_t now{1000 * SEC};
    int64_t rt_offset{};             // realtime = now + rt_offset
    net_cfg net;
    sched_cfg sched;
    bool trace_on{};
    std::vector<std::string> trace;

    int64_t realtime() const { return now + rt_offset; }
    void set_realtime(int64_t sec) { rt_offset = sec * SEC - now; }

    // ---- running ----
    process_t & spawn(proc_opts o);              // registers a process (forked when its start time comes)
    void run();                                  // until all processes ended; pending downloads may remain
    void drain(int64_t limit = 3600 * SEC);      // let world events (downloads) finish
    void at(int64_t t, std::function<void()> fn);
    void kill_process(process_t & p, pend how);
    // called before the n-th operation executed in the world since the call
    std::vector<std::pair<int, std::function<void(world &)>>> env_events;
    std::function<void(world &, thread_t &)> after_op; // invariant hook
    void jump_realtime(int64_t delta);            // sets the wall clock; realtime waits follow it
    void power_loss();                            // contents not yet synced become old, empty or torn

    // ---- results ----
    std::vector<std::unique_ptr<process_t>> procs;
    std::vector<command_rec> commands;
    std::vector<file_event> fevents;
    int seq{0};                                  // global event number
    bool deadlock{};
    std::string harness_error;
    uint64_t hash{1469598103934665603ull};
    uint64_t sched_hash{1469598103934665603ull};
    std::map<std::string, uint64_t> stats;       // faults fired, rare conditions
    int total_ops{};
    int switches{};

    void log(std::string const & s);
    void mixin(std::string const & s);
    void mixin(uint64_t v);
    void fev(int proc, std::string const & path, std::string const & op);

private:
    std::vector<timed_event> events;
    uint64_t evseq{};
    bool slot_used[max_slots]{};
    thread_t * current{};
    std::map<thread_t *, uint32_t> prio;
    std::vector<inode_p> graveyard;
    int op_cap{60000};

    int alloc_slot();
    void start_process(process_t & p);
    bool wait_request(process_t & p, int slot); // false: process died
    void resume(thread_t & t, long ret);
    void settle(thread_t & t);
    thread_t * choose();
    void execute(thread_t & t);
    bool syscall(thread_t & t, long & ret); // true: completed
    bool fire_events();
    int64_t next_deadline() const;
    void thread_gone(thread_t & t);
    void reap(process_t & p);
    int inject(thread_t & t, fclass c, std::vector<int> const & errs, std::string const & what);
    void out_data(thread_t & t, int arg, void const * p, size_t n);
    std::string arg_str(thread_t & t, int k) const;
    void do_system(thread_t & t, std::string const & cmd, bool & done, long & ret);
    void begin_download(size_t cmd_idx, cred c, inode * cwd);
    void write_net(std::string const & path, cred c, inode * cwd, std::string const & data, bool trunc, size_t idx);
    void fill_stat(inode const & n, struct stat & st) const;
    long sys_open(thread_t & t, inode * base, std::string const & path, int flags, unsigned mode);
    long sys_unlink(thread_t & t, inode * base, std::string const & path, bool dir);
    long sys_mkdir(thread_t & t, inode * base, std::string const & path, unsigned mode);
    long sys_rename(thread_t & t, inode * b1, std::string const & a, inode * b2, std::string const & b, unsigned flags);
    inode * base_of(process_t & p, int64_t dfd, long & err);
    long new_fd(process_t & p, std::shared_ptr<fd_obj> o, int from = 0);
    std::string full_path(inode * base, std::string const & path) const;
    long file_write(thread_t & t, fd_obj & f, char const * d, size_t n, int64_t at_off);
    long file_read(thread_t & t, fd_obj & f, size_t n, int64_t at_off, std::string & out);
    bool wake_futex(process_t & p, uint64_t uaddr, int n, int & woken);
    std::string path_of(inode const * n) const;
};

char const * sysname(uint32_t nr);
} // namespace sim
