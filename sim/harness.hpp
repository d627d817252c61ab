// A scenario = generated world(s) + simulated runs + oracle. One seed (or one recorded choice list) is one exact execution.
#pragma once
#include "apps.hpp"
#include "world.hpp"

namespace sim
{
struct ctx
{
    choices & ch;
    bool trace_on{};
    bool want_desc{};
    // results
    std::string sig, what;           // first violation: stable kind, and full text
    std::vector<std::string> desc;   // the generated case in words
    std::vector<std::string> trace;
    std::map<std::string, uint64_t> stats;  // faults fired, reach
    uint64_t hash{1469598103934665603ull};
    uint64_t shape{1469598103934665603ull}; // what makes the case distinct
    bool nontrivial{};
    int64_t sim_time{};
    uint64_t ops{}, procs{}, commands{}, switches{};
    std::string harness_error;
    uint64_t sched_hash{};

    explicit ctx(choices & c) : ch{c} {}
    bool bad() const { return !sig.empty(); }
    void fail(std::string s, std::string w)
    {
        if (sig.empty())
        {
            sig = std::move(s);
            what = std::move(w);
        }
    }
    void note(std::string s)
    {
        if (want_desc)
            desc.push_back(std::move(s));
    }
    void mixs(uint64_t v) { shape = (shape ^ v) * 1099511628211ull; shape ^= shape >> 29; }
    void mixs(std::string const & s)
    {
        for (unsigned char c : s)
            shape = (shape ^ c) * 1099511628211ull;
        mixs(s.size());
    }
    void reach(std::string const & s, uint64_t n = 1) { stats["reach:" + s] += n; }
    // folds a finished world into the results; generic sanity
    void absorb(world & w)
    {
        hash = (hash ^ w.hash) * 1099511628211ull;
        hash = (hash ^ (uint64_t)w.now) * 1099511628211ull;
        sched_hash = (sched_hash * 31) ^ w.sched_hash;
        mixs(w.sched_hash);
        for (auto & [k, v] : w.stats)
            stats[k] += v;
        sim_time += w.now - 1000 * SEC;
        ops += w.total_ops;
        procs += w.procs.size();
        commands += w.commands.size();
        switches += w.switches;
        if (!w.harness_error.empty() && harness_error.empty())
            harness_error = w.harness_error;
        if (trace_on)
        {
            trace.push_back("--- world ---");
            trace.insert(trace.end(), w.trace.begin(), w.trace.end());
        }
    }
};

struct scenario
{
    char const * id;
    void (*fn)(ctx &);
    char const * rule;
};
std::vector<scenario> const & scenarios();

// ---- shared helpers (common.cpp) ----
std::string quote(std::string const & s);
char const * end_name(pend e);
void gen_sched(ctx & c, world & w, bool stalls);
void advance(world & w, int64_t delta);                 // time passes, downloads progress
std::string diff_snap(vfs::snap const & a, vfs::snap const & b, bool ignore_new_dirs); // "" if equal
// does the process look like a normal program end?
bool ended_ok(process_t const & p);
std::string how_ended(process_t const & p);
// names of files that the library creates for a moment in directories it examines (observed, plus some constants)
std::vector<std::string> const & probe_names();
void add_probe_name(std::string const & n);
void calibrate();
struct gen_opts
{
    bool simple{};          // only valid command lines, nothing special
    bool special{true};     // help, version, export ...
    bool errors{true};
    bool user_validators{};
    bool file_validators{};
    bool subcommands{true};
    bool rich{};            // long descriptions, sections
};
prog gen_prog(ctx & c, gen_opts const & o);
std::string show_prog(prog const & p);
// environment variables that must not matter; mostly none
std::map<std::string, std::string> odd_vars(ctx & c);
std::string show_vars(std::map<std::string, std::string> const & v);
bool is_special(prog const & p);
} // namespace sim
