// Search driver: seeded runs in forked workers, same-seed gate, minimisation, replay files.
#include "harness.hpp"

#include <algorithm>
#include <atomic>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sched.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

namespace sim
{
std::vector<scenario> u_scenarios();
std::vector<scenario> f_scenarios();
std::vector<scenario> p_scenarios();
std::vector<scenario> const & scenarios()
{
    static std::vector<scenario> const all = []
    {
        auto v = u_scenarios();
        for (auto & s : f_scenarios())
            v.push_back(s);
        for (auto & s : p_scenarios())
            v.push_back(s);
        return v;
    }();
    return all;
}
} // namespace sim
using namespace sim;

namespace
{
using streams = std::array<std::vector<uint32_t>, N_STREAMS>;

double wall()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec;
}

std::string js(std::string const & s)
{
    std::string r = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\')
            (r += '\\') += (char)c;
        else if (c == '\n')
            r += "\\n";
        else if (c == '\t')
            r += "\\t";
        else if (c < 32 || c >= 127)
        {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        }
        else
            r += (char)c;
    }
    return r + "\"";
}
std::string js(std::vector<std::string> const & v)
{
    std::string r = "[";
    for (size_t i = 0; i < v.size(); ++i)
        r += (i ? ",\n  " : "\n  ") + js(v[i]);
    return r + "]";
}

scenario const * find(std::string const & id)
{
    for (auto & s : scenarios())
        if (id == s.id)
            return &s;
    return nullptr;
}

// Pinned workers and their simulated processes are cheap to switch between, but with other load on the machine the
// kernel has been seen to starve one of them for minutes: the parent moves those without progress to the next CPU.
std::atomic<uint64_t> * beats{};
std::atomic<uint64_t> * my_beat{};

void run_one(scenario const & s, ctx & c)
{
    if (my_beat)
        ++*my_beat;
    s.fn(c);
    for (int i = 0; i < N_STREAMS; ++i)
        c.hash = (c.hash ^ c.ch.pos[i] ^ 0) * 1099511628211ull;
    c.hash = (c.hash ^ c.shape) * 1099511628211ull;
}
// hash independent of recording/replaying (pos only advances in replay)
uint64_t fin(ctx const & c) { return c.hash; }

struct found
{
    std::string sig, what;
    uint64_t seed{};
    streams rec;
    size_t size{};
};

size_t total(streams const & r)
{
    size_t n = 0;
    for (auto & v : r)
        for (auto x : v)
            n += x != 0;
    return n;
}

void strip(streams & r)
{
    for (auto & v : r)
        while (!v.empty() && v.back() == 0)
            v.pop_back();
}

void put(std::ostream & o, std::string const & s) { o << s.size() << ' ' << s << '\n'; }
std::string get(std::istream & i)
{
    size_t n;
    i >> n;
    i.get();
    std::string s(n, 0);
    i.read(s.data(), (long)n);
    return s;
}

// One run in a child forked from this process, which itself never runs anything: memory errors of the code under test then
// meet the same memory in every repetition.
struct verdict
{
    bool done{};
    std::string sig, what, harness;
    uint64_t hash{};
    streams rec;
};
verdict isolated(scenario const & s, uint64_t const * seed, streams const * rec)
{
    verdict v;
    int fd[2];
    if (pipe(fd))
        return v;
    pid_t p = fork();
    if (p == 0)
    {
        close(fd[0]);
        choices ch = seed ? choices{*seed} : choices{*rec};
        ctx c{ch};
        run_one(s, c);
        std::ostringstream o;
        put(o, c.sig);
        put(o, c.what);
        put(o, c.harness_error);
        o << c.hash << '\n';
        for (int i = 0; i < N_STREAMS; ++i)
        {
            std::vector<uint32_t> r = seed ? ch.rec[(size_t)i] : (*rec)[(size_t)i];
            if (!seed && r.size() > ch.pos[i])
                r.resize(ch.pos[i]);
            o << r.size() << '\n';
            for (auto x : r)
                o << x << ' ';
            o << '\n';
        }
        o << "end";
        std::string const t = o.str();
        for (size_t k = 0; k < t.size();)
        {
            ssize_t n = write(fd[1], t.data() + k, t.size() - k);
            if (n <= 0)
                break;
            k += (size_t)n;
        }
        _exit(0);
    }
    close(fd[1]);
    std::string t;
    char buf[65536];
    for (ssize_t n; (n = read(fd[0], buf, sizeof buf)) > 0;)
        t.append(buf, (size_t)n);
    close(fd[0]);
    waitpid(p, nullptr, 0);
    std::istringstream i{t};
    v.sig = get(i);
    v.what = get(i);
    v.harness = get(i);
    i >> v.hash;
    for (auto & r : v.rec)
    {
        size_t m = 0;
        for (i >> m; m && i; --m)
        {
            uint32_t x = 0;
            i >> x;
            r.push_back(x);
        }
    }
    std::string e;
    i >> e;
    v.done = e == "end";
    return v;
}

// Does this list of choices still violate the property in the same way? The list is replaced by what was really used.
bool still(scenario const & s, streams & r, std::string const & sig)
{
    verdict v = isolated(s, nullptr, &r);
    if (!v.done || v.sig != sig || !v.harness.empty())
        return false;
    r = v.rec;
    return true;
}

streams minimise(scenario const & s, streams r, std::string const & sig, int budget, double seconds)
{
    double const t0 = wall();
    auto ok = [&](streams & x)
    {
        if (budget <= 0 || wall() - t0 > seconds)
            return false;
        --budget;
        return still(s, x, sig);
    };
    strip(r);
    bool progress = true;
    while (progress && budget > 0 && wall() - t0 < seconds)
    {
        progress = false;
        // faults and scheduling first: they are what makes a trace hard to read
        for (int i : {S_FAULT, S_SCHED, S_NET, S_GEN})
        {
            if (total({r[i]}) == 0)
                continue;
            for (size_t chunk = r[i].size(); chunk >= 1; chunk /= 2)
            {
                for (size_t pos = 0; pos < r[i].size(); pos += chunk)
                {
                    size_t end = std::min(pos + chunk, r[i].size());
                    if (std::all_of(r[i].begin() + (long)pos, r[i].begin() + (long)end, [](uint32_t x) { return x == 0; }))
                        continue;
                    streams x = r;
                    std::fill(x[i].begin() + (long)pos, x[i].begin() + (long)end, 0u);
                    if (ok(x))
                    {
                        strip(x);
                        r = x;
                        progress = true;
                    }
                    else if (i == S_GEN && chunk <= 16)
                    {
                        x = r;
                        x[i].erase(x[i].begin() + (long)pos, x[i].begin() + (long)end);
                        if (ok(x) && total(x) < total(r))
                        {
                            strip(x);
                            r = x;
                            progress = true;
                        }
                    }
                    if (budget <= 0 || wall() - t0 > seconds)
                        return r;
                }
                if (chunk == 1)
                    break;
            }
        }
    }
    return r;
}

struct totals
{
    uint64_t runs{}, rerun{}, nontrivial{}, ops{}, procs{}, commands{}, switches{}, nondet{}, harness{};
    double sim_time{}; // seconds
    std::map<std::string, uint64_t> stats;
    std::vector<uint64_t> shapes, scheds;
    std::vector<std::string> samples, problems;
    uint64_t allhash{};
    std::vector<found> bugs;
};

void save(totals const & t, std::string const & file)
{
    std::ofstream o{file, std::ios::binary};
    o << t.runs << ' ' << t.rerun << ' ' << t.nontrivial << ' ' << t.ops << ' ' << t.procs << ' ' << t.commands << ' ' << t.switches
      << ' ' << t.nondet << ' ' << t.harness << ' ' << t.sim_time << ' ' << t.allhash << '\n';
    o << t.stats.size() << '\n';
    for (auto & [k, v] : t.stats)
    {
        put(o, k);
        o << v << '\n';
    }
    for (auto * v : {&t.shapes, &t.scheds})
    {
        o << v->size() << '\n';
        for (auto x : *v)
            o << x << ' ';
        o << '\n';
    }
    for (auto * v : {&t.samples, &t.problems})
    {
        o << v->size() << '\n';
        for (auto & x : *v)
            put(o, x);
    }
    o << t.bugs.size() << '\n';
    for (auto & b : t.bugs)
    {
        put(o, b.sig);
        put(o, b.what);
        o << b.seed << '\n';
        for (auto & v : b.rec)
        {
            o << v.size() << '\n';
            for (auto x : v)
                o << x << ' ';
            o << '\n';
        }
    }
    o << "end\n";
}

bool load(totals & t, std::string const & file)
{
    std::ifstream i{file, std::ios::binary};
    totals n;
    if (!(i >> n.runs >> n.rerun >> n.nontrivial >> n.ops >> n.procs >> n.commands >> n.switches >> n.nondet >> n.harness >> n.sim_time
            >> n.allhash))
        return false;
    t.runs += n.runs;
    t.rerun += n.rerun;
    t.nontrivial += n.nontrivial;
    t.ops += n.ops;
    t.procs += n.procs;
    t.commands += n.commands;
    t.switches += n.switches;
    t.nondet += n.nondet;
    t.harness += n.harness;
    t.sim_time += n.sim_time;
    t.allhash += n.allhash; // commutative: independent of the number of workers
    size_t k;
    i >> k;
    for (; k; --k)
    {
        auto s = get(i);
        uint64_t v;
        i >> v;
        t.stats[s] += v;
    }
    for (auto * v : {&t.shapes, &t.scheds})
    {
        for (i >> k; k; --k)
        {
            uint64_t x;
            i >> x;
            v->push_back(x);
        }
    }
    for (auto * v : {&t.samples, &t.problems})
        for (i >> k; k; --k)
            v->push_back(get(i));
    for (i >> k; k; --k)
    {
        found b;
        b.sig = get(i);
        b.what = get(i);
        i >> b.seed;
        for (auto & v : b.rec)
        {
            size_t m;
            for (i >> m; m; --m)
            {
                uint32_t x;
                i >> x;
                v.push_back(x);
            }
        }
        b.size = total(b.rec);
        t.bugs.push_back(std::move(b));
    }
    std::string e;
    i >> e;
    return e == "end";
}

std::vector<int> cpus()
{
    cpu_set_t m;
    std::vector<int> r;
    if (!getenv("SIM_NOPIN") && sched_getaffinity(0, sizeof m, &m) == 0)
        for (int i = 0; i < CPU_SETSIZE; ++i)
            if (CPU_ISSET(i, &m))
                r.push_back(i);
    return r;
}

constexpr size_t MAX_KIDS = 256;

void move_to(pid_t p, cpu_set_t const & m, int depth)
{
    sched_setaffinity(p, sizeof m, &m);
    if (depth > 4)
        return;
    std::ifstream f{"/proc/" + std::to_string(p) + "/task/" + std::to_string(p) + "/children"};
    for (pid_t k; f >> k;)
        move_to(k, m, depth + 1);
}

void map_beats()
{
    beats = (std::atomic<uint64_t> *)mmap(nullptr, MAX_KIDS * sizeof *beats, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (beats == MAP_FAILED)
        beats = nullptr;
}

// waits for all processes; status of each
std::vector<int> await(std::vector<pid_t> const & kids)
{
    std::vector<int> status(kids.size());
    std::vector<bool> done(kids.size());
    std::vector<uint64_t> last(kids.size());
    std::vector<double> since(kids.size(), wall());
    std::vector<size_t> at(kids.size());
    auto cs = cpus();
    size_t left = kids.size();
    for (size_t i = 0; i < kids.size(); ++i)
        at[i] = i;
    while (left)
    {
        for (size_t i = 0; i < kids.size(); ++i)
        {
            if (done[i])
                continue;
            if (waitpid(kids[i], &status[i], WNOHANG) != 0)
            {
                done[i] = true;
                --left;
                continue;
            }
            uint64_t const b = beats && i < MAX_KIDS ? beats[i].load() : 0;
            if (b != last[i])
            {
                last[i] = b;
                since[i] = wall();
            }
            else if (wall() - since[i] > 4 && cs.size() > 1)
            {
                cpu_set_t m;
                CPU_ZERO(&m);
                CPU_SET(cs[++at[i] % cs.size()], &m);
                move_to(kids[i], m, 0);
                since[i] = wall();
            }
        }
        if (left)
            usleep(10000);
    }
    return status;
}

void map_shm()
{
    shm = (shm_t *)mmap(nullptr, sizeof(shm_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (shm == MAP_FAILED)
    {
        perror("mmap");
        _exit(3);
    }
}

struct options
{
    std::string check, out, replay, rdir{"."}, save;
    uint64_t seed{1}, runs{100}, first{0};
    int workers{0};
    double budget{500};
    bool trace{}, list{}, nomin{};
    int max_sigs{4};
};

uint64_t seed_of(options const & o, uint64_t i)
{
    uint64_t h = o.seed;
    for (unsigned char ch : o.check)
        h = mix(h, ch);
    return mix(h, i);
}

void worker(options const & o, scenario const & s, int w, int W, std::string const & file)
{
    auto cs = cpus();
    if (!cs.empty())
    {
        cpu_set_t m;
        CPU_ZERO(&m);
        CPU_SET(cs[(size_t)w % cs.size()], &m);
        sched_setaffinity(0, sizeof m, &m);
    }
    map_shm();
    double const t0 = wall();
    totals t;
    std::unordered_set<uint64_t> shapes, scheds;
    std::map<std::string, int> sigs;
    for (uint64_t i = o.first + (uint64_t)w; i < o.first + o.runs; i += (uint64_t)W)
    {
        if (wall() - t0 > o.budget)
            break;
        uint64_t const seed = seed_of(o, i);
        choices ch{seed};
        ctx c{ch};
        c.want_desc = t.samples.size() < 1 && i % 7 == 3;
        run_one(s, c);
        ++t.runs;
        if (!c.harness_error.empty())
        {
            ++t.harness;
            if (t.problems.size() < 5)
                t.problems.push_back("harness: run " + std::to_string(i) + " seed " + std::to_string(seed) + ": " + c.harness_error);
            continue;
        }
        t.allhash += mix(fin(c), i);
        for (auto & [k, v] : c.stats)
            t.stats[k] += v;
        t.sim_time += (double)c.sim_time / (double)SEC;
        t.ops += c.ops;
        t.procs += c.procs;
        t.commands += c.commands;
        t.switches += c.switches;
        if (c.nontrivial)
        {
            ++t.nontrivial;
            shapes.insert(c.shape);
        }
        scheds.insert(c.sched_hash);
        if (c.want_desc && c.nontrivial && !c.bad())
        {
            std::string d = "run " + std::to_string(i) + ":";
            for (auto & x : c.desc)
                d += "\n" + x;
            if (d.size() > 3000)
                d.resize(3000);
            t.samples.push_back(d);
        }
        bool const again = c.bad() || i % 40 == 11;
        if (!again)
            continue;
        if (c.bad())
        {
            // candidates are confirmed and minimised by the main process
            t.stats["violating runs"] += 1;
            if (!sigs.count(c.sig) && (int)sigs.size() >= o.max_sigs)
                continue;
            if (++sigs[c.sig] <= 4)
            {
                found f;
                f.sig = c.sig;
                f.what = c.what;
                f.seed = seed;
                f.rec = ch.rec;
                t.bugs.push_back(std::move(f));
            }
            continue;
        }
        choices ch2{seed};
        ctx c2{ch2};
        run_one(s, c2);
        ++t.rerun;
        if (fin(c2) != fin(c) || c2.sig != c.sig || ch2.rec != ch.rec)
        {
            ++t.nondet;
            if (t.problems.size() < 5)
                t.problems.push_back("not reproducible: run " + std::to_string(i) + " seed " + std::to_string(seed) + " [" + c.sig + "] vs ["
                                     + c2.sig + "] " + c2.harness_error);
        }
    }
    t.shapes.assign(shapes.begin(), shapes.end());
    t.scheds.assign(scheds.begin(), scheds.end());
    save(t, file);
}

bool read_replay(std::string const & file, std::string & check, streams & r, bool & rel, std::string & sig)
{
    std::ifstream f{file};
    std::stringstream ss;
    ss << f.rdbuf();
    std::string const s = ss.str();
    auto strfield = [&](std::string const & k)
    {
        auto p = s.find("\"" + k + "\":");
        if (p == std::string::npos)
            return std::string{};
        p = s.find('"', p + k.size() + 3);
        std::string v;
        for (++p; p < s.size() && s[p] != '"'; ++p)
        {
            if (s[p] == '\\' && p + 1 < s.size())
                ++p;
            v += s[p];
        }
        return v;
    };
    check = strfield("property");
    rel = strfield("flavour") == "release";
    sig = strfield("kind");
    auto p = s.find("\"choices\":");
    if (p == std::string::npos || check.empty())
        return false;
    p = s.find('[', p);
    for (int i = 0; i < N_STREAMS; ++i)
    {
        p = s.find('[', p + 1);
        if (p == std::string::npos)
            return false;
        size_t e = s.find(']', p);
        std::stringstream v{s.substr(p + 1, e - p - 1)};
        std::string item;
        while (std::getline(v, item, ','))
            if (item.find_first_of("0123456789") != std::string::npos)
                r[(size_t)i].push_back((uint32_t)std::stoul(item));
        p = e;
    }
    return true;
}

void write_replay(std::string const & file, std::string const & check, found const & b, ctx const & c, scenario const & s)
{
    std::ofstream o{file};
    o << "{\n\"property\": " << js(check) << ",\n\"flavour\": \"" << (release_build() ? "release" : "debug") << "\",\n\"seed\": \"" << b.seed
      << "\",\n\"kind\": " << js(b.sig) << ",\n\"violation\": " << js(c.what) << ",\n\"scenario\": " << js(s.rule)
      << ",\n\"streams\": \"generator, scheduler, faults, network; 0 is the simplest choice; missing ones are 0\",\n\"choices\": [";
    for (int i = 0; i < N_STREAMS; ++i)
    {
        o << (i ? ",\n[" : "\n[");
        for (size_t k = 0; k < b.rec[(size_t)i].size(); ++k)
            o << (k ? "," : "") << b.rec[(size_t)i][k];
        o << "]";
    }
    o << "],\n\"case\": " << js(c.desc) << ",\n\"hash\": \"" << c.hash << "\",\n\"trace\": " << js(c.trace) << "\n}\n";
}

// in a child, because a simulation needs its own shared memory
void calibrate_in_child()
{
    int fd[2];
    if (pipe(fd))
        return;
    pid_t const p = fork();
    if (p == 0)
    {
        close(fd[0]);
        map_shm();
        calibrate();
        std::string s;
        for (auto & n : probe_names())
            s += n + "\n";
        (void)!write(fd[1], s.data(), s.size());
        _exit(0);
    }
    close(fd[1]);
    std::string s;
    char b[512];
    for (ssize_t n; (n = read(fd[0], b, sizeof b)) > 0;)
        s.append(b, (size_t)n);
    close(fd[0]);
    waitpid(p, nullptr, 0);
    size_t at = 0;
    for (size_t e; (e = s.find('\n', at)) != std::string::npos; at = e + 1)
        add_probe_name(s.substr(at, e - at));
}
} // namespace

int main(int argc, char ** argv)
{
    // the same addresses in every execution (only matters for code with memory errors)
    int const pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && personality((unsigned long)pers | ADDR_NO_RANDOMIZE) != -1)
        execv("/proc/self/exe", argv);
    options o;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--check")
            o.check = val();
        else if (a == "--seed")
            o.seed = std::stoull(val());
        else if (a == "--runs")
            o.runs = std::stoull(val());
        else if (a == "--first")
            o.first = std::stoull(val());
        else if (a == "--workers")
            o.workers = std::stoi(val());
        else if (a == "--budget")
            o.budget = std::stod(val());
        else if (a == "--out")
            o.out = val();
        else if (a == "--replays")
            o.rdir = val();
        else if (a == "--replay")
            o.replay = val();
        else if (a == "--save")
            o.save = val();
        else if (a == "--trace")
            o.trace = true;
        else if (a == "--no-minimise")
            o.nomin = true;
        else if (a == "--max-kinds")
            o.max_sigs = std::stoi(val());
        else if (a == "--list")
            o.list = true;
        else if (a == "--flavour")
        {
            puts(release_build() ? "release" : "debug");
            return 0;
        }
        else
        {
            fprintf(stderr, "unknown option %s\n", a.c_str());
            return 2;
        }
    }
    if (o.list)
    {
        for (auto & s : scenarios())
            printf("%s %s\n", s.id, s.rule);
        return 0;
    }
    calibrate_in_child();
    if (!o.replay.empty())
    {
        streams r;
        bool rel;
        std::string sig;
        if (!read_replay(o.replay, o.check, r, rel, sig))
        {
            fprintf(stderr, "cannot read %s\n", o.replay.c_str());
            return 2;
        }
        if (rel != release_build())
        {
            fprintf(stderr, "this replay needs the %s build\n", rel ? "release" : "debug");
            return 2;
        }
        auto * s = find(o.check);
        if (!s)
            return 2;
        map_shm();
        choices ch{r};
        ctx c{ch};
        c.want_desc = c.trace_on = o.trace;
        s->fn(c);
        if (o.trace)
        {
            for (auto & x : c.desc)
                printf("%s\n", x.c_str());
            for (auto & x : c.trace)
                printf("  %s\n", x.c_str());
        }
        if (!c.harness_error.empty())
        {
            printf("HARNESS ERROR: %s\n", c.harness_error.c_str());
            return 2;
        }
        printf("hash %llu\n", (unsigned long long)c.hash);
        if (!c.bad())
        {
            printf("no violation\n");
            return 0;
        }
        printf("%s [%s]: %s\n", c.sig == sig ? "REPRODUCED" : "DIFFERENT VIOLATION", c.sig.c_str(), c.what.c_str());
        return c.sig == sig ? 1 : 4;
    }
    auto * s = find(o.check);
    if (!s)
    {
        fprintf(stderr, "no check %s\n", o.check.c_str());
        return 2;
    }
    int W = o.workers > 0 ? o.workers : (int)std::max<size_t>(1, cpus().size());
    char tmpl[] = "/tmp/sharg_sim_XXXXXX";
    if (!mkdtemp(tmpl))
        return 2;
    std::string const dir = tmpl;
    double const t0 = wall();
    std::vector<pid_t> kids;
    map_beats();
    for (int w = 0; w < W; ++w)
    {
        pid_t p = fork();
        if (p == 0)
        {
            my_beat = beats && (size_t)w < MAX_KIDS ? &beats[w] : nullptr;
            worker(o, *s, w, W, dir + "/" + std::to_string(w));
            _exit(0);
        }
        kids.push_back(p);
    }
    totals t;
    auto const status = await(kids);
    for (int w = 0; w < W; ++w)
    {
        int const st = status[(size_t)w];
        std::string const f = dir + "/" + std::to_string(w);
        if (!load(t, f))
        {
            ++t.harness;
            t.problems.push_back("worker " + std::to_string(w) + " died, status " + std::to_string(st));
        }
        unlink(f.c_str());
    }
    rmdir(dir.c_str());
    double const secs = wall() - t0;
    auto uniq = [](std::vector<uint64_t> & v)
    {
        std::sort(v.begin(), v.end());
        v.erase(std::unique(v.begin(), v.end()), v.end());
    };
    uniq(t.shapes);
    uniq(t.scheds);
    // candidates of every kind, the smallest first, are repeated in isolation; the first that repeats exactly is minimised
    std::map<std::string, std::vector<found>> cand;
    for (auto & x : t.bugs)
        cand[x.sig].push_back(x);
    map_shm();
    struct job
    {
        std::string sig, file, status;
        pid_t pid{};
    };
    std::vector<job> jobs;
    for (auto & [sig, v] : cand)
    {
        std::sort(v.begin(), v.end(), [](found const & x, found const & y) { return x.size != y.size ? x.size < y.size : x.seed < y.seed; });
        if ((int)jobs.size() >= o.max_sigs)
            break;
        uint64_t h = 1469598103934665603ull;
        for (unsigned char x : sig)
            h = (h ^ x) * 1099511628211ull;
        char name[64];
        snprintf(name, sizeof name, "%s-%s-%08x.json", o.check.c_str(), release_build() ? "release" : "debug", (unsigned)(h ^ (h >> 32)));
        job j{sig, o.rdir + "/" + name, o.rdir + "/" + name + ".status", 0};
        unlink(j.file.c_str());
        j.pid = fork();
        if (j.pid == 0)
        {
            my_beat = beats && jobs.size() < MAX_KIDS ? &beats[jobs.size()] : nullptr;
            auto cs = cpus();
            if (!cs.empty())
            {
                cpu_set_t m;
                CPU_ZERO(&m);
                CPU_SET(cs[jobs.size() % cs.size()], &m);
                sched_setaffinity(0, sizeof m, &m);
            }
            map_shm();
            std::string why = "no candidate repeats";
            std::ofstream st{j.status};
            size_t tries = 0;
            for (auto & f : v)
            {
                if (++tries > 6)
                    break;
                verdict v1 = isolated(*s, &f.seed, nullptr), v2 = isolated(*s, &f.seed, nullptr);
                bool same = v1.done && v2.done && v1.sig == sig && v2.sig == sig;
                if (same && (v1.hash != v2.hash || v1.rec != v2.rec))
                    // reads memory that is not its own: the bytes differ, the violation has to be the same every time
                    for (int k = 0; same && k < 6; ++k)
                    {
                        v2 = isolated(*s, &f.seed, nullptr);
                        same = v2.done && v2.sig == sig;
                    }
                if (!same)
                {
                    why = "seed " + std::to_string(f.seed) + " gives [" + f.sig + "], then [" + v1.sig + "] and [" + v2.sig + "]";
                    continue;
                }
                found g = f;
                g.rec = v1.rec;
                if (!o.nomin)
                    g.rec = minimise(*s, v1.rec, sig, 600, 25);
                g.size = total(g.rec);
                pid_t p = fork();
                if (p == 0)
                {
                    choices ch{g.rec};
                    ctx c{ch};
                    c.trace_on = c.want_desc = true;
                    s->fn(c);
                    if (c.sig != sig)
                        _exit(5);
                    write_replay(j.file, o.check, g, c, *s);
                    std::ofstream w{j.file + ".what"};
                    put(w, c.what);
                    w << g.seed << ' ' << g.size << '\n';
                    w.close();
                    _exit(0);
                }
                int ws = 0;
                waitpid(p, &ws, 0);
                if (!WIFEXITED(ws) || WEXITSTATUS(ws))
                {
                    why = "minimised choices do not reproduce";
                    continue;
                }
                why.clear();
                break;
            }
            st << (why.empty() ? "confirmed" : why);
            st.close();
            _exit(0);
        }
        jobs.push_back(j);
    }
    std::string vio = "[";
    size_t nvio = 0;
    {
        std::vector<pid_t> pids;
        for (auto & j : jobs)
            pids.push_back(j.pid);
        await(pids);
    }
    for (auto & j : jobs)
    {
        std::string why{"minimiser died"};
        {
            std::ifstream f{j.status};
            if (f)
                std::getline(f, why);
            if (why == "confirmed")
                why.clear();
        }
        unlink(j.status.c_str());
        std::ifstream w{j.file + ".what"};
        if (!why.empty() || !w)
        {
            ++t.nondet;
            t.problems.push_back("kind " + j.sig + ": " + why);
            continue;
        }
        std::string const what = get(w);
        uint64_t seed = 0;
        size_t size = 0;
        w >> seed >> size;
        unlink((j.file + ".what").c_str());
        ++nvio;
        vio += std::string(vio.size() > 1 ? ",\n" : "\n") + "{\"kind\": " + js(j.sig) + ", \"what\": " + js(what) + ", \"replay\": " + js(j.file)
             + ", \"seed\": \"" + std::to_string(seed) + "\", \"nonzero_choices\": " + std::to_string(size) + "}";
    }
    vio += "]";
    std::ostringstream r;
    r << "{\n\"check\": " << js(o.check) << ",\n\"flavour\": \"" << (release_build() ? "release" : "debug") << "\",\n\"rule\": " << js(s->rule)
      << ",\n\"runs\": " << t.runs << ",\n\"requested\": " << o.runs << ",\n\"reruns\": " << t.rerun << ",\n\"not_reproducible\": " << t.nondet
      << ",\n\"harness_errors\": " << t.harness << ",\n\"nontrivial\": " << t.nontrivial << ",\n\"distinct_nontrivial\": " << t.shapes.size()
      << ",\n\"distinct_schedules\": " << t.scheds.size() << ",\n\"operations\": " << t.ops << ",\n\"processes\": " << t.procs
      << ",\n\"commands\": " << t.commands << ",\n\"thread_switches\": " << t.switches << ",\n\"simulated_seconds\": "
      << t.sim_time << ",\n\"workers\": " << W << ",\n\"wall_s\": " << secs << ",\n\"all_hash\": \"" << t.allhash
      << "\",\n\"stats\": {";
    bool first = true;
    for (auto & [k, v] : t.stats)
    {
        r << (first ? "\n" : ",\n") << js(k) << ": " << v;
        first = false;
    }
    r << "},\n\"samples\": " << js(t.samples) << ",\n\"problems\": " << js(t.problems) << ",\n\"violations\": " << vio << "\n}\n";
    if (o.out.empty())
        std::cout << r.str();
    else
        std::ofstream{o.out} << r.str();
    return nvio ? 1 : 0;
}
