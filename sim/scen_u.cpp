// Update machinery: U01 - U08.
#include "harness.hpp"

#include <algorithm>
#include <cstring>

namespace sim
{
namespace
{
// ------------------------------------------------------------------------------------------------ one program run
struct urun
{
    prog p;
    int explicit_{-1};              // --version-check: -1 absent, 0 false, 1 true
    bool opt_out{};                 // SHARG_NO_VERSION_CHECK set
    std::string opt_out_value;
    bool tty_in{}, tty_err{};
    std::string input;
    int64_t work{};
    unsigned moves{};
    bool in_thread{};
    bool state{};                   // watch the process state
    bool read_rest{};               // read what is left of standard input at the end
    unsigned closed{};              // standard streams that are closed: 1 in, 2 out, 4 err
    int exit_how{};
    fault_plan fp{};
    int64_t delay{};
    bool plain{};                   // an ordinary parse: no help page, no errors
};

struct uenv
{
    std::string home{"/home/u"};
    bool home_set{true};
    std::string tmp;
    bool tmp_set{};
    std::string cwd{"/home/u/work"};
    std::map<std::string, std::string> extra;
};

char const * cookie_suffix() { return release_build() ? "_usr.timestamp" : "_dev.timestamp"; }

void base_world(world & w)
{
    w.fs.mkdirs("/tmp", 01777, 0);
    w.fs.mkdirs("/home/u", 0755, 1000);
    w.fs.mkdirs("/home/u/work", 0755, 1000);
    w.fs.mkdirs("/dev", 0755, 0);
    w.fs.put("/dev/null", ftype::chr, "null", 0666, 0);
}

// The places of the command line where an option of the program itself may stand: not as the value of another option, not behind
// the name of a subcommand or behind "--".
std::vector<size_t> option_places(prog const & p)
{
    std::vector<std::string> values_follow{"--export-help", "--version-check"};
    for (auto const & e : p.elems)
        if (e.kind == E_OPTION)
        {
            if (e.sid)
                values_follow.push_back(std::string("-") + e.sid);
            if (!e.lid.empty())
                values_follow.push_back("--" + e.lid);
        }
    auto has = [](std::vector<std::string> const & v, std::string const & x)
    { return std::find(v.begin(), v.end(), x) != v.end(); };
    std::vector<size_t> places;
    for (size_t i = 0; i < p.argv.size(); ++i)
    {
        places.push_back(i);
        if (p.argv[i] == "--" || has(p.subcommands, p.argv[i]))
            return places;
        if (has(values_follow, p.argv[i]) && ++i == p.argv.size())
            return places; // its value is missing
    }
    places.push_back(p.argv.size());
    return places;
}

void add_explicit(urun & r, ctx & c, int value)
{
    r.explicit_ = value;
    std::string v = value ? (c.ch.g(2) ? "1" : "true") : (c.ch.g(2) ? "0" : "false");
    auto const places = option_places(r.p);
    size_t const at = c.ch.g(3) ? places[c.ch.g((unsigned)places.size())] : places[0];
    r.p.argv.insert(r.p.argv.begin() + (ptrdiff_t)at, {"--version-check", v});
}

process_t & start(world & w, urun const & r, uenv const & e)
{
    proc_opts o;
    o.name = r.p.name;
    o.in = r.tty_in ? stdkind::tty : stdkind::pipe;
    o.err = r.tty_err ? stdkind::tty : stdkind::pipe;
    if (r.closed & 1)
        o.in = stdkind::closed;
    if (r.closed & 2)
        o.out = stdkind::closed;
    if (r.closed & 4)
        o.err = stdkind::closed;
    o.input = r.input;
    o.fp = r.fp;
    o.cwd = e.cwd;
    o.start_delay = r.delay;
    body_opts b;
    b.env = e.extra;
    b.env["PATH"] = "/usr/bin:/bin";
    if (e.home_set)
        b.env["HOME"] = e.home;
    if (e.tmp_set)
        b.env["TMPDIR"] = e.tmp;
    if (r.opt_out)
        b.env["SHARG_NO_VERSION_CHECK"] = r.opt_out_value;
    b.work = r.work;
    b.moves = r.moves;
    b.in_thread = r.in_thread;
    b.state = r.state;
    b.read_rest = r.read_rest;
    b.exit_how = r.exit_how;
    prog p = r.p;
    o.body = [p, b] { return body_app(p, b); };
    return w.spawn(std::move(o));
}

std::string show_run(urun const & r)
{
    std::string s = show_prog(r.p);
    if (r.opt_out)
        s += " SHARG_NO_VERSION_CHECK=" + quote(r.opt_out_value);
    s += std::string(" stdin=") + (r.tty_in ? "tty" : "pipe") + " stderr=" + (r.tty_err ? "tty" : "pipe") + " input=" + quote(r.input);
    if (r.fp.crash_at >= 0)
        s += std::string(" crash ") + (r.fp.crash_after ? "after" : "before") + " op " + std::to_string(r.fp.crash_at);
    if (r.fp.classes)
        s += " faults(classes " + std::to_string(r.fp.classes) + ", rate " + std::to_string(r.fp.num) + "/" + std::to_string(r.fp.den) + ", at "
           + std::to_string(r.fp.at) + ")";
    if (r.moves & 7)
        s += " moves " + std::to_string(r.moves);
    if (r.in_thread)
        s += " in a thread";
    if (r.read_rest)
        s += " reads the rest of stdin";
    if (r.closed)
        s += " closed streams " + std::to_string(r.closed);
    if (r.exit_how)
        s += r.exit_how == 1 ? " calls exit" : " static parser";
    if (r.work)
        s += " works " + std::to_string(r.work / MS) + " ms";
    return s;
}

// what one run did, as seen from outside
struct seen
{
    std::vector<int> requests;  // indices into world::commands
    int programs{};             // commands other than requests
    bool prompted{};            // read the terminal
    std::string answer;         // what it read
    int64_t first_prompt_rt{};
    int prompt_seq{};
    std::string why_bad;
};

seen look(world const & w, process_t const & p)
{
    seen s;
    for (size_t i = 0; i < w.commands.size(); ++i)
        if (w.commands[i].proc == p.id)
        {
            if (w.commands[i].is_request)
                s.requests.push_back((int)i);
            else
                ++s.programs;
        }
    int own = 1 << 30; // from here on the program itself reads
    for (auto & m : p.marks)
        if (m.value == 6)
            own = m.seq;
    if (p.o.in == stdkind::tty)
        for (auto & e : p.in_events)
        {
            if (e.seq > own)
                break;
            if (!s.prompted)
            {
                s.first_prompt_rt = e.t;
                s.prompt_seq = e.seq;
            }
            s.prompted = true;
            s.answer += e.text;
        }
    return s;
}

enum consent { C_NO, C_MAY, C_YES };
// what an answer means: exact letters are clear, words starting with them are accepted either way
void meaning(std::string const & a, consent & always, consent & once, consent & never)
{
    always = once = never = C_NO;
    std::string l = a.substr(0, a.find('\n'));
    if (l == "a")
        always = C_YES, once = C_YES;
    else if (l == "y")
        once = C_YES;
    else if (l == "n")
        never = C_YES;
    else if (!l.empty() && (l[0] == 'a' || l[0] == 'A'))
        always = C_MAY, once = C_MAY;
    else if (!l.empty() && (l[0] == 'y' || l[0] == 'Y'))
        once = C_MAY;
    else if (!l.empty() && (l[0] == 'n' || l[0] == 'N'))
        never = C_MAY;
}

// decisions an application may have stored
enum : unsigned { D_NONE = 1, D_ALWAYS = 2, D_NEVER = 4 };

unsigned seed_cookie(ctx & c, world & w, uenv const & e, std::string const & app, bool only_valid, int64_t & stamp_out)
{
    stamp_out = 0;
    unsigned k = c.ch.g(only_valid ? 6 : 24);
    if (k == 0)
        return D_NONE;
    std::string const dir = e.home + "/.config/seqan";
    w.fs.mkdirs(e.home + "/.config", 0755, 1000);
    w.fs.mkdirs(dir, 0755, 1000);
    std::string const f = dir + "/" + app + cookie_suffix();
    int64_t const now = w.realtime() / SEC;
    int64_t const old = now - c.ch.of(std::vector<int64_t>{100000, 90000, 864000});
    auto put = [&](std::string d)
    {
        w.fs.file(f, d);
        c.note("state file " + f + " = " + quote(d));
    };
    auto ts = std::to_string(old);
    stamp_out = old;
    switch (k)
    {
    case 1: put(ts + "\nASK"); return D_NONE;
    case 2: put(ts + "\nALWAYS"); return D_ALWAYS;
    case 3: put(ts + "\nNEVER"); return D_NEVER;
    case 4: stamp_out = now - 1000; put(std::to_string(stamp_out) + "\nALWAYS"); return D_ALWAYS;
    case 5: stamp_out = now - 1000; put(std::to_string(stamp_out) + "\nNEVER"); return D_NEVER;
    // damaged or foreign contents never are consent
    case 6: put(""); return D_NONE;
    case 7: put(ts); return D_NONE;
    case 8: put(ts + "\n"); return D_NONE;
    case 9: { std::string s = ts + "\nALWAYS"; put(s.substr(0, 1 + c.ch.g((uint32_t)s.size() - 1))); return D_NONE; }
    case 10: put(ts + "\nALWAYS MAYBE"); return D_NONE;
    case 11: put(ts + "\nalways"); return D_NONE;
    case 12: put(ts + "\n\nALWAYS"); return D_NONE;
    case 13: put(std::string("\0\1\2ALWAYS\0", 10)); return D_NONE;
    case 14: put(ts + "\nASK\nALWAYS"); return D_NONE;
    case 15: put(ts + "\nXALWAYS"); return D_NONE;
    case 16: w.fs.mkdirs(f, 0755, 1000); c.note("state file is a directory"); return D_NONE;
    case 17: put(ts + "\nALWAYS"); w.fs.at(f)->mode = 0; c.note("state file unreadable"); return D_NONE;
    case 18: // other build flavour and other applications
        w.fs.file(dir + "/" + app + (release_build() ? "_dev.timestamp" : "_usr.timestamp"), ts + "\nALWAYS");
        if (app.size() < 4 || (app.compare(app.size() - 4, 4, "_usr") && app.compare(app.size() - 4, 4, "_dev"))) // else it is that of another one
            w.fs.file(dir + "/" + app + ".timestamp", ts + "\nALWAYS");
        w.fs.file(dir + "/other" + cookie_suffix(), ts + "\nALWAYS");
        w.fs.file(dir + "/" + app + "9" + cookie_suffix(), ts + "\nALWAYS");
        w.fs.file(dir + "/x" + app + cookie_suffix(), ts + "\nALWAYS");
        c.note("state files of other programs say ALWAYS");
        return D_NONE;
    case 20:
    case 21:
    case 22:
    case 23: // slightly damaged
    {
        std::string d = ts + "\nALWAYS" + (c.ch.g(2) ? "\n" : "");
        static std::vector<std::string> const ins{"A", "x", "\n", "\r", " ", "\t", std::string(1, '\0'), "\xff", "0", "-", ".", "ALWAYS", "\nALWAYS", "NEVER\n", "_"};
        for (int n = 1 + (int)c.ch.g(3); n > 0; --n)
        {
            // mostly in the decision
            size_t const at = c.ch.g(3) ? std::min(d.size(), ts.size() + c.ch.g(9)) : c.ch.g((uint32_t)d.size() + 1);
            switch (c.ch.g(5))
            {
            case 0: d.insert(at, c.ch.of(ins)); break;
            case 1: if (at < d.size()) d.erase(at, 1); break;
            case 2: if (at < d.size()) d.replace(at, 1, c.ch.of(ins)); break;
            case 3: if (at < d.size()) d[at] = (char)(d[at] ^ 0x20); break;
            default: if (at + 1 < d.size()) std::swap(d[at], d[at + 1]);
            }
        }
        put(d);
        size_t const l1 = d.find('\n');
        if (l1 == std::string::npos)
            return D_NONE;
        size_t const l2 = d.find('\n', l1 + 1);
        return d.substr(l1 + 1, l2 == std::string::npos ? l2 : l2 - l1 - 1) == "ALWAYS" ? D_NONE | D_ALWAYS : D_NONE;
    }
    default:
        w.fs.file(e.cwd + "/" + app + cookie_suffix(), ts + "\nALWAYS");
        w.fs.file(e.home + "/" + app + cookie_suffix(), ts + "\nALWAYS");
        w.fs.file(e.home + "/.config/" + app + cookie_suffix(), ts + "\nALWAYS");
        c.note("state files in foreign directories say ALWAYS");
        return D_NONE;
    }
}

std::vector<std::string> const answers{"a\n", "n\n", "y\n", "s\n", "\n", "", "x\n", "A\n", "always\n", "no\n", "s", "a", " a\n", "sa\n", "\na\n", "yes\n", "0\n"};
std::vector<std::string> const clear_answers{"a\n", "n\n", "y\n", "s\n", "\n", "a", "n", "", "sn\n", "q\n"};

void gen_net(ctx & c, world & w)
{
    switch (c.ch.g(5))
    {
    case 0: w.net.kinds = {net_kind::ok_fast}; break;
    case 1: w.net.kinds = {net_kind::ok_slow}; break;
    default: w.net.kinds = {net_kind::ok_fast, net_kind::ok_slow, net_kind::refused, net_kind::http_error, net_kind::torn, net_kind::hang, net_kind::garbage};
    }
    switch (c.ch.g(8))
    {
    case 5: w.net.wget = false; break;
    case 6: w.net.curl = false; break;
    case 7: w.net.wget = w.net.curl = false; break;
    default: break;
    }
    if (c.ch.g(3) == 1)
        w.net.default_answer = c.ch.of(std::vector<std::string>{"9.9.9\n9.9.9\n", "1.0.0\n1.1.1\n", "0.0.1\n0.0.1", "<html>\n", "", "ALWAYS\nALWAYS"});
}

std::vector<std::string> const app_names{"app", "app2", "App", "a_b", "app-x", "z"};

// one or two applications; names that a careless program confuses
std::vector<std::string> gen_names(ctx & c)
{
    std::vector<std::string> r{c.ch.of(app_names)};
    std::string n = r[0];
    switch (c.ch.g(8))
    {
    case 0:
    case 1:
    case 2: return r;
    case 3: n = c.ch.of(app_names); break;
    case 4: // case
        for (auto & x : n)
            if (x != n[0] || c.ch.g(2) || n.size() == 1)
                x = (char)(isupper((unsigned char)x) ? tolower((unsigned char)x) : toupper((unsigned char)x));
        if (n == r[0])
            n[0] = (char)(isupper((unsigned char)n[0]) ? tolower((unsigned char)n[0]) : toupper((unsigned char)n[0]));
        break;
    case 5: n += c.ch.of(std::vector<std::string>{"_usr", "_dev", "2", "-", "_", "_usr_usr", "-x", "s"}); break;
    case 6: n = (c.ch.g(2) ? std::string(60, 'l') : "my_") + n; break;
    case 7: // the same first 15 (and 31) characters
        r[0] = std::string(c.ch.g(2) ? 15 : 31, 'q') + n;
        n = r[0].substr(0, r[0].size() - n.size()) + "x" + n;
        break;
    }
    if (n != r[0])
        r.push_back(n);
    return r;
}

prog app_prog(ctx & c, std::string const & name, bool fancy, bool & plain)
{
    gen_opts g;
    g.simple = !fancy;
    g.special = fancy;
    g.errors = fancy;
    prog p = gen_prog(c, g);
    p.name = name;
    p.update_on = true;
    p.locale = c.ch.g(6) == 5;
    plain = !fancy;
    return p;
}

void gen_crash(ctx & c, urun & r, uint32_t range)
{
    r.fp.crash_at = 1 + (int)c.ch.g(range);
    r.fp.crash_after = c.ch.g(2);
}

// notes the run's basic facts for distinctness
void mix_run(ctx & c, urun const & r, seen const & s, process_t const & p)
{
    c.mixs(r.explicit_ + 1);
    c.mixs(r.opt_out * 2 + r.p.update_on);
    c.mixs(r.tty_in * 2 + r.tty_err);
    c.mixs(s.answer);
    c.mixs(s.requests.size());
    c.mixs((uint64_t)p.end);
    c.mixs(p.failures.size());
    for (auto & f : p.failures)
        c.mixs(f);
}

std::string run_label(size_t i, urun const & r) { return "run " + std::to_string(i) + " [" + show_run(r) + "]"; }

// Mostly 2023; sometimes a time at which the number of seconds gets another size.
void gen_epoch(ctx & c, world & w)
{
    if (c.ch.g(5) == 4)
        w.set_realtime(c.ch.of(std::vector<int64_t>{1000000000 - 40000, 2147483648 - 100000, 4294967296 - 100000, 8589934592 - 100000, 31536000, 16777216 * 100ll, 1717196400}));
}

// =============================================================================================== U01
void u01(ctx & c)
{
    world w{c.ch};
    w.trace_on = c.trace_on;
    base_world(w);
    uenv e;
    e.extra = odd_vars(c);
    gen_epoch(c, w);
    gen_net(c, w);
    bool const stalls = c.ch.g(4) == 1;
    gen_sched(c, w, stalls);
    bool const faulty_case = c.ch.g(3) == 2; // swarm: storage and process faults
    bool const concurrent_case = c.ch.g(4) == 3;
    bool const power_case = c.ch.g(6) == 5;

    std::vector<std::string> const names = gen_names(c);
    std::map<std::string, unsigned> dec;
    for (auto & n : names)
    {
        int64_t st;
        unsigned d = seed_cookie(c, w, e, n, false, st);
        if (!dec.count(n))
            dec[n] = d;
        else if (dec[n] != d)
            dec[n] |= d;
    }
    // a state file of another build flavour written for one app may be another generated app's own: keep that simple
    int const steps = 1 + (int)c.ch.g(5);
    for (int step = 0; step < steps && !c.bad(); ++step)
    {
        int const n = concurrent_case && c.ch.g(2) ? 2 + (int)c.ch.g(2) : 1;
        std::vector<urun> rs;
        std::vector<process_t *> ps;
        bool group_fault = false;
        for (int k = 0; k < n; ++k)
        {
            urun r;
            r.p = app_prog(c, c.ch.of(names), c.ch.g(5) == 4, r.plain);
            r.p.update_on = c.ch.g(8) != 7;
            if (c.ch.g(3) == 2)
                add_explicit(r, c, (int)c.ch.g(2));
            if (c.ch.g(8) == 7)
            {
                r.opt_out = true;
                r.opt_out_value = c.ch.of(std::vector<std::string>{"1", "", "0", "false"});
            }
            r.tty_in = c.ch.g(4) != 3;
            r.tty_err = c.ch.g(5) != 4;
            r.input = c.ch.of(answers);
            r.work = c.ch.of(std::vector<int64_t>{0, 10 * MS, 2 * SEC, 20 * SEC});
            r.moves = c.ch.g(10) == 9 ? c.ch.g(16) : 0;
            if (faulty_case && c.ch.g(2))
            {
                if (c.ch.g(3) == 0)
                    gen_crash(c, r, 60);
                else
                {
                    r.fp.classes = c.ch.of(std::vector<unsigned>{FC_FS, FC_OPEN, FC_WRITE | FC_CLOSE, FC_READ, FC_STAT, FC_MKDIR | FC_REMOVE | FC_RENAME, FC_SYSTEM, FC_SPAWN, FC_FS | FC_SYSTEM | FC_SPAWN | FC_SHORT, FC_SHORT});
                    r.fp.num = c.ch.of(std::vector<uint32_t>{50, 200, 500});
                    r.fp.max = 1 + c.ch.g(6);
                }
                group_fault = true;
            }
            if (n > 1)
                r.delay = c.ch.of(std::vector<int64_t>{0, 0, 50 * US, 5 * MS, SEC});
            c.note(run_label(step, r));
            rs.push_back(r);
        }
        for (auto & r : rs)
            ps.push_back(&start(w, r, e));
        w.run();
        if (!w.harness_error.empty())
            break;
        // possible stored decisions while the group runs: before it, and anything a member answered
        std::map<std::string, unsigned> during = dec;
        for (int k = 0; k < n; ++k)
        {
            seen s = look(w, *ps[k]);
            consent a, o, v;
            meaning(s.answer, a, o, v);
            if (s.prompted && n > 1)
                during[rs[k].p.name] |= (a != C_NO ? D_ALWAYS : 0) | (v != C_NO ? D_NEVER : 0) | D_NONE;
        }
        for (int k = 0; k < n; ++k)
        {
            urun const & r = rs[k];
            process_t const & p = *ps[k];
            seen s = look(w, p);
            consent a, o, v;
            meaning(s.answer, a, o, v);
            bool const in_tty_prompt = s.prompted;
            if (s.requests.size() > 1)
                c.fail("two-requests", run_label(step, r) + " issued " + std::to_string(s.requests.size()) + " requests");
            bool const off = !r.p.update_on || r.opt_out;
            bool justified = !off
                          && (r.explicit_ == 1
                              || (r.explicit_ == -1 && ((during[r.p.name] & D_ALWAYS) || (in_tty_prompt && o != C_NO))));
            if (!s.requests.empty() && !justified)
                c.fail("no-consent",
                       run_label(step, r) + " contacted the server (" + w.commands[s.requests[0]].cmd + ") although "
                           + (!r.p.update_on             ? "the developer switched notifications off"
                              : r.opt_out                ? "SHARG_NO_VERSION_CHECK is set"
                              : r.explicit_ == 0         ? "--version-check false was given"
                                                         : "nobody consented (answer " + quote(s.answer) + ")"));
            // liveness: a consented, undisturbed, ordinary run contacts the server once
            bool const quiet = !group_fault && !faulty_case && !w.sched.stall_num && p.end == pend::exited && p.o.fp.crash_at < 0;
            if (quiet && r.plain && !off && (w.net.wget || w.net.curl) && (r.explicit_ == 1 || (r.explicit_ == -1 && in_tty_prompt && o == C_YES)))
            {
                c.reach("consented run in a healthy world");
                if (s.requests.size() != 1)
                    c.fail("request-missing", run_label(step, r) + " issued no request although the user consented");
            }
            if (!s.requests.empty())
                c.reach("request issued");
            if (r.plain && p.end == pend::exited && p.report("outcome").substr(0, 2) != "OK")
                c.reach(("plain run fails to parse: " + p.report("outcome").substr(0, 60)).c_str());
            if (s.prompted)
                c.reach("prompted");
            if (off && r.explicit_ == 1)
                c.reach("explicit true overruled by opt-out");
            mix_run(c, r, s, p);
        }
        for (int k = 0; k < n; ++k)
        {
            urun const & r = rs[k];
            process_t const & p = *ps[k];
            seen s = look(w, p);
            consent a, o, v;
            meaning(s.answer, a, o, v);
            unsigned & d = dec[r.p.name];
            bool const clean = p.end == pend::exited && p.failures.empty() && n == 1 && p.o.fp.crash_at < 0;
            unsigned next = a == C_YES ? D_ALWAYS : v == C_YES ? D_NEVER : a == C_MAY ? (D_ALWAYS | D_NONE) : v == C_MAY ? (D_NEVER | D_NONE) : D_NONE;
            if (s.prompted)
                d = clean ? next : (d | next | D_NONE);
        }
        if (power_case && c.ch.g(2))
        {
            w.power_loss();
            for (auto & [k, d] : dec)
                d |= D_NONE;
        }
        static std::vector<int64_t> const gaps{0, HOUR, 25 * HOUR, 3 * DAY, DAY - 100 * SEC, 40 * DAY, 30 * SEC};
        int64_t gap = c.ch.of(gaps);
        advance(w, gap);
        c.mixs(gap);
        c.note("then " + std::to_string(gap / SEC) + " s pass");
        if (c.ch.g(12) == 11)
            w.jump_realtime(c.ch.of(std::vector<int64_t>{-HOUR, -3 * DAY, 400 * DAY}));
    }
    c.nontrivial = w.commands.size() > 0 || steps > 1;
    c.absorb(w);
}

// =============================================================================================== U02, U03: reference model of one app
struct model
{
    unsigned d{D_NONE};             // possible decisions
    int64_t lmin{0}, lmax{0};       // the last due evaluation happened in this interval (seconds; 0: never)
    // for spacing
    int64_t act_t0{0};              // start (wall clock) of the last run that prompted or requested unsolicited
    bool acted{};
};

void u23(ctx & c, bool u03)
{
    world w{c.ch};
    w.trace_on = c.trace_on;
    base_world(w);
    uenv e;
    e.extra = odd_vars(c);
    if (c.ch.g(4) == 3)
    {
        // the state directory of last resort
        w.fs.at("/home/u")->mode = 0555;
        e.tmp_set = true;
        e.tmp = "/home/t";
        w.fs.mkdirs("/home/t", 0755, 1000);
        c.note("HOME is not writable; TMPDIR=/home/t");
    }
    gen_epoch(c, w);
    gen_net(c, w);
    gen_sched(c, w, c.ch.g(6) == 5);
    // U03 keeps the decision through later faults; U02 only crashes
    bool const crash_case = c.ch.g(3) == 2;
    bool const fault_case = u03 && c.ch.g(2) == 1;

    std::vector<std::string> const names = gen_names(c);
    std::map<std::string, model> ms;
    for (auto & n : names)
    {
        int64_t st = 0;
        model m;
        if (!e.tmp_set)
        {
            m.d = seed_cookie(c, w, e, n, true, st);
            m.lmin = m.lmax = st;
        }
        ms[n] = m;
    }
    int const steps = 2 + (int)c.ch.g(6);
    for (int step = 0; step < steps && !c.bad(); ++step)
    {
        urun r;
        r.p = app_prog(c, c.ch.of(names), c.ch.g(8) == 7, r.plain);
        r.p.update_on = c.ch.g(12) != 11;
        if (c.ch.g(5) == 4)
            add_explicit(r, c, (int)c.ch.g(2));
        if (c.ch.g(12) == 11)
        {
            r.opt_out = true;
            r.opt_out_value = "1";
        }
        bool const inter = c.ch.g(4) != 3;
        r.tty_in = inter || c.ch.g(2);
        r.tty_err = inter;
        r.input = c.ch.of(clear_answers);
        r.work = c.ch.of(std::vector<int64_t>{0, 10 * MS, 2 * SEC, 20 * SEC});
        model & m = ms[r.p.name];
        if (crash_case && c.ch.g(3) == 2)
            gen_crash(c, r, 60);
        else if (fault_case && c.ch.g(2))
        {
            r.fp.classes = c.ch.of(std::vector<unsigned>{FC_FS, FC_OPEN, FC_WRITE | FC_CLOSE, FC_READ, FC_STAT, FC_MKDIR | FC_REMOVE | FC_RENAME, FC_SYSTEM, FC_SPAWN, FC_FS | FC_SYSTEM | FC_SPAWN, FC_SHORT | FC_OPEN});
            if (c.ch.g(2))
                r.fp.at = (int)c.ch.g(25);
            else
            {
                r.fp.num = c.ch.of(std::vector<uint32_t>{50, 200, 600});
                r.fp.max = 1 + c.ch.g(6);
            }
            r.input = "";  // a disturbed run may ask again, but nobody answers
        }
        c.note(run_label(step, r));
        auto const cookies_before = c.want_desc ? w.fs.snapshot() : vfs::snap{};
        int64_t const t0 = w.realtime() / SEC;
        process_t & p = start(w, r, e);
        w.run();
        if (!w.harness_error.empty())
            break;
        seen s = look(w, p);
        int64_t const t1 = w.realtime() / SEC;
        consent a, o, v;
        meaning(s.answer, a, o, v);
        bool const crashed = p.end == pend::killed;
        bool const disturbed = crashed || !p.failures.empty();
        bool const off = !r.p.update_on || r.opt_out;
        bool const machinery = !off && r.explicit_ == -1 && r.plain;
        bool const stalled = p.stalls > 0;
        bool const interactive = r.tty_in && r.tty_err;
        std::string const L = run_label(step, r);
        auto fail = [&](char const * sig, std::string const & msg)
        {
            c.fail(sig, L + " " + msg);
        };
        bool const unsolicited = r.explicit_ == -1 && (s.prompted || !s.requests.empty());

        if (!u03)
        {
            // spacing
            if (unsolicited)
            {
                int64_t const first = s.prompted ? s.first_prompt_rt : w.commands[s.requests[0]].rt;
                int64_t const at_ = s.prompted ? (first + w.rt_offset) / SEC : w.commands[s.requests[0]].rt / SEC;
                (void)first;
                if (m.acted && at_ - m.act_t0 < 86400 - 2)
                    fail("too-often", std::string(s.prompted ? "asked the user" : "contacted the server") + " unsolicited only " + std::to_string(at_ - m.act_t0)
                                          + " s after the previous time");
                if (m.acted)
                    c.reach("repeated unsolicited action");
            }
            // liveness: due runs ask or request
            if (machinery && !disturbed && !stalled && m.d == D_NONE && interactive)
            {
                if (t0 - m.lmax > 86400 + 1)
                {
                    c.reach("due interactive run");
                    if (!s.prompted)
                        fail("not-asked", "did not ask although nothing happened for more than a day");
                }
            }
            if (machinery && !disturbed && !stalled && m.d == D_ALWAYS && (w.net.wget || w.net.curl))
            {
                if (t0 - m.lmax > 86400 + 1)
                {
                    c.reach("due run under ALWAYS");
                    if (s.requests.size() != 1)
                        fail("not-requested", "did not contact the server although the user chose 'always' and nothing happened for more than a day");
                }
            }
        }
        else
        {
            if (m.d == D_NEVER)
            {
                c.reach("run after 'never'");
                if (r.explicit_ == -1 && !s.requests.empty())
                    fail("never-ignored", "contacted the server although the user answered 'never'");
                if (s.prompted && !disturbed)
                    fail("asked-after-never", "asked again although the user answered 'never'");
            }
            if (m.d == D_ALWAYS)
            {
                c.reach("run after 'always'");
                if (s.prompted && !disturbed)
                    fail("asked-after-always", "asked again although the user answered 'always'");
                if (machinery && !disturbed && !stalled && (w.net.wget || w.net.curl) && t0 - m.lmax > 86400 + 1 && s.requests.size() != 1)
                    fail("always-lost", "did not contact the server although the user answered 'always' and nothing happened for more than a day");
            }
            if (p.failures.size() && m.d != D_NONE)
                c.reach("storage error in a run with a stored decision");
            if (crashed && m.d != D_NONE)
                c.reach("crash in a run with a stored decision");
        }
        // ---- update the model
        unsigned const before = m.d;
        if (s.prompted)
        {
            unsigned const next = a == C_YES ? D_ALWAYS : v == C_YES ? D_NEVER : D_NONE;
            if (before == D_NONE || (before & D_NONE) || before != next)
            {
                if (!disturbed)
                    m.d = u03 && before != D_NONE && s.answer.empty() ? before : next;
                else if (before == D_NONE)
                    m.d = s.answer.empty() ? D_NONE : (D_NONE | next);
                else if (before & D_NONE)
                    m.d = before | next;
                // a decision stays even if a disturbed run asked again (nobody answered)
            }
        }
        // last due evaluation: between lmin and lmax
        if (unsolicited)
        {
            m.lmin = t0;
            m.lmax = t1;
        }
        else if (r.explicit_ == -1 && !off)
        {
            bool const surely = !disturbed && r.plain && t0 - m.lmax > 86400 + 1;
            if (disturbed || t0 - m.lmin >= 86400 - 1)
                m.lmax = t1;
            if (surely)
                m.lmin = t0;
        }
        if (unsolicited)
        {
            m.acted = true;
            m.act_t0 = t0;
        }
        mix_run(c, r, s, p);
        if (c.want_desc)
        {
            std::string d = diff_snap(cookies_before, w.fs.snapshot(), false);
            if (!d.empty())
                c.note("  changed: " + d);
            c.note("  run " + std::to_string(step) + ": " + how_ended(p) + (s.prompted ? ", asked, answer " + quote(s.answer) : "") + ", "
                   + std::to_string(s.requests.size()) + " requests");
        }
        static std::vector<int64_t> const gaps{25 * HOUR, 0, HOUR, 3 * DAY, DAY - 600 * SEC, 40 * DAY, 30 * SEC, DAY + 600 * SEC, 13 * HOUR};
        int64_t gap = c.ch.of(gaps);
        if (c.ch.g(3) == 2)
        {
            // so that the next run happens around the moment at which a day has passed
            model const & m2 = ms[c.ch.of(names)];
            int64_t const base = c.ch.g(2) ? m2.lmin : m2.lmax;
            int64_t const want = base + 86400 + c.ch.of(std::vector<int64_t>{-1, -3, -5, -20, -40, -70, -110, -200, -400, 1, 2, 4, 7, 20, 40, 70, 110, 200, 400, -1800, 1800});
            if (base && want > w.realtime() / SEC)
                gap = (want - w.realtime() / SEC) * SEC;
        }
        advance(w, gap);
        c.mixs(gap);
        c.note("then " + std::to_string(gap / SEC) + " s pass");
    }
    c.nontrivial = true;
    c.absorb(w);
}
void u02(ctx & c) { u23(c, false); }
void u03(ctx & c) { u23(c, true); }

// =============================================================================================== odd environments
std::string odd_dir_name(ctx & c)
{
    static std::vector<std::string> const n{"plain", "with space", "it's", "semi;touch pwned", "$(touch pwned)", "`touch pwned`", "amp&touch pwned", "new\nline", "star*",
                                            "quote\"q", "back\\slash", "-dash", "pipe|x", "gt>out", "h#sh", "~", "ümlaut", "$HOME", "a'b'c", "'", "par(en)", "{x,y}", "!h", "tab\tx", "x=y"};
    return c.ch.of(n);
}

// prepares HOME/TMPDIR and the state directory; whatever it does, a program must cope
void odd_env(ctx & c, world & w, uenv & e, std::string const & app, bool names_only)
{
    e.home = "/home/u";
    switch (c.ch.g(names_only ? 3 : 10))
    {
    case 0: break;
    case 1:
    case 2:
        e.home = "/home/" + odd_dir_name(c);
        w.fs.mkdirs(e.home, 0755, 1000);
        if (c.ch.g(5) == 4)
            e.home += "/";
        break;
    case 3: e.home_set = false; break;
    case 4: e.home = ""; break;
    case 5: e.home = "/nonexistent/x"; break;
    case 6: e.home = "/home/ro"; w.fs.mkdirs(e.home, 0555, 1000); break;
    case 7: e.home = "/home/afile"; w.fs.file(e.home, "x"); break;
    case 8: e.home = "relhome"; if (c.ch.g(2)) w.fs.mkdirs(e.cwd + "/relhome", 0755, 1000); break;
    case 9: e.home = "/home/full"; w.fs.mkdirs(e.home, 0755, 1000)->mnt = c.ch.of(std::vector<unsigned>{MF_FULL, MF_NOINODES, MF_RO, MF_FULL | MF_NOINODES}); break;
    }
    switch (c.ch.g(names_only ? 4 : 9))
    {
    case 0:
    case 1: break;
    case 2:
    case 3:
        e.tmp_set = true;
        e.tmp = "/home/t-" + odd_dir_name(c);
        w.fs.mkdirs(e.tmp, 0755, 1000);
        break;
    case 4: e.tmp_set = true; e.tmp = "/nonexistent"; break;
    case 5: e.tmp_set = true; e.tmp = ""; break;
    case 6: e.tmp_set = true; e.tmp = "/home/tfile"; w.fs.file(e.tmp, "x"); break;
    case 7: e.tmp_set = true; e.tmp = "/home/tro"; w.fs.mkdirs(e.tmp, 0555, 0); break;
    case 8: w.fs.at("/tmp")->mode = 0555; break;
    }
    if (names_only)
    {
        if (c.ch.g(3) == 2 && e.home_set)
            if (auto n = w.fs.at(e.home))
                n->mode = 0555; // force the temporary directory
        return;
    }
    // cwd
    if (c.ch.g(6) == 5)
        w.fs.at(e.cwd)->mode = 0555;
    if (!e.home_set || e.home.empty() || e.home[0] != '/')
        return;
    auto h = w.fs.at(e.home);
    if (!h || h->type != ftype::dir || (h->mode & 0200) == 0)
        return;
    std::string hd = e.home;
    while (hd.size() > 1 && hd.back() == '/')
        hd.pop_back();
    // what may be lying around in the state directory
    switch (c.ch.g(10))
    {
    case 0: return;
    case 1: w.fs.file(hd + "/.config", "not a directory"); return;
    case 2: w.fs.mkdirs(hd + "/.config", 0755, 1000); w.fs.file(hd + "/.config/seqan", "a file"); return;
    case 3: w.fs.mkdirs(hd + "/.config", 0555, 0); return;
    case 4: w.fs.mkdirs(hd + "/.config", 0755, 1000); w.fs.mkdirs(hd + "/.config/seqan", 0555, 0); break;
    case 5: w.fs.mkdirs(hd + "/.config", 0755, 1000); w.fs.put(hd + "/.config/seqan", ftype::lnk, "/nonexistent/dir", 0777, 1000); return;
    case 6:
        w.fs.mkdirs(hd + "/elsewhere", 0755, 1000);
        w.fs.mkdirs(hd + "/.config", 0755, 1000);
        w.fs.put(hd + "/.config/seqan", ftype::lnk, "../elsewhere", 0777, 1000);
        break;
    default: break;
    }
    w.fs.mkdirs(hd + "/.config", 0755, 1000);
    std::string const sd = hd + "/.config/seqan";
    if (!w.fs.at(sd))
        w.fs.mkdirs(sd, 0755, 1000);
    unsigned const lying = c.ch.g(6);
    std::string const probe = sd + "/" + (lying >= 1 && lying <= 3 ? c.ch.of(probe_names()) : std::string("x"));
    switch (lying)
    {
    case 1: w.fs.file(probe, "precious"); break;
    case 2: w.fs.mkdirs(probe, 0755, 1000); w.fs.file(probe + "/inner", "precious"); break;
    case 3: w.fs.put(probe, ftype::lnk, "/home/u/work/precious", 0777, 1000); w.fs.file("/home/u/work/precious", "precious"); break;
    case 4: w.fs.file(sd + "/other_usr.timestamp", "1\nALWAYS"); w.fs.file(sd + "/notes.txt", "keep"); break;
    default: break;
    }
    std::string const ck = sd + "/" + app + cookie_suffix();
    std::string const ts = std::to_string(w.realtime() / SEC - 200000);
    switch (c.ch.g(14))
    {
    case 1: w.fs.file(ck, ts + "\nALWAYS"); break;
    case 2: w.fs.file(ck, ts + "\nNEVER"); break;
    case 3: w.fs.file(ck, ts + "\nASK"); break;
    case 4: w.fs.file(ck, std::string(5000, 'A')); break;
    case 5: w.fs.file(ck, std::string("\0\xff\xfe\n\0\n", 6)); break;
    case 6: w.fs.mkdirs(ck, 0755, 1000); break;
    case 7: w.fs.file(ck, ts + "\nALWAYS", 0000); break;
    case 8: w.fs.put(ck, ftype::lnk, ck, 0777, 1000); break; // loop
    case 9: w.fs.file(ck, "nan\nALWAYS"); break;
    case 10: w.fs.file(ck, "1e999\nASK"); break;
    case 11: w.fs.file(ck, ts + "\nASK", 0444); break;
    case 12: w.fs.file(ck, "-5\n"); break;
    default: break;
    }
    std::string const vf = sd + "/" + app + ".version";
    switch (c.ch.g(12))
    {
    case 1: w.fs.file(vf, "9.9.9\n9.9.9\n"); break;
    case 2: w.fs.file(vf, "UNREGISTERED_APP\n9.9.9\n"); break;
    case 3: w.fs.file(vf, "<html>"); break;
    case 4: w.fs.file(vf, ""); break;
    case 5: w.fs.mkdirs(vf, 0755, 1000); break;
    case 6: w.fs.file(vf, "99999999999999999999.1.1\n1.99999999999.1"); break;
    case 7: w.fs.file(vf, std::string(60000, '1') + "." + std::string(30000, '2') + ".3\n"); break;
    case 8: w.fs.file(vf, std::string("1.2.3\0\n", 7)); break;
    case 9: w.fs.put(vf, ftype::fifo, "", 0644, 1000); break;
    case 10: w.fs.file(vf, "9.9.9\n" + std::string(80000, '7'), 0644); break;
    default: break;
    }
}

std::string show_env(uenv const & e)
{
    return std::string("HOME") + (e.home_set ? "=" + quote(e.home) : " unset") + " TMPDIR" + (e.tmp_set ? "=" + quote(e.tmp) : " unset") + " cwd=" + e.cwd + show_vars(e.extra);
}

// =============================================================================================== U04
void u04(ctx & c)
{
    world w{c.ch};
    w.trace_on = c.trace_on;
    base_world(w);
    uenv e;
    e.extra = odd_vars(c);
    gen_net(c, w);
    gen_sched(c, w, false);
    urun r;
    r.p = app_prog(c, c.ch.of(app_names), c.ch.g(3) == 2, r.plain);
    unsigned const how = 1 + c.ch.g(7); // at least one way of opting out
    if (how & 1)
        r.p.update_on = false;
    if (how & 2)
    {
        r.opt_out = true;
        r.opt_out_value = c.ch.of(std::vector<std::string>{"1", "", "0", "false", "no"});
    }
    if (how & 4)
        add_explicit(r, c, 0);
    else if (c.ch.g(4) == 3)
        add_explicit(r, c, 1);
    odd_env(c, w, e, r.p.name, false);
    // with the option alone the rest of the parse must get that far
    r.tty_in = c.ch.g(4) != 3;
    r.tty_err = c.ch.g(4) != 3;
    r.input = c.ch.of(answers);
    r.work = c.ch.g(3) * SEC;
    if (c.ch.g(4) == 3)
    {
        r.fp.classes = c.ch.of(std::vector<unsigned>{FC_FS, FC_OPEN, FC_MKDIR, FC_STAT, FC_WRITE | FC_CLOSE, FC_REMOVE});
        r.fp.num = 300;
        r.fp.max = 4;
    }
    else if (c.ch.g(6) == 5)
        gen_crash(c, r, 40);
    c.note(show_env(e));
    c.note(run_label(0, r));
    // --version-check false only opts out if it is reached before an error of the command line
    bool const sure = (how & 3) || r.plain || !r.p.argv.empty();
    auto const before = w.fs.snapshot();
    process_t & p = start(w, r, e);
    w.run();
    advance(w, 100 * SEC);
    auto const after = w.fs.snapshot();
    seen s = look(w, p);
    if (sure)
    {
        std::string d = diff_snap(before, after, false);
        if (!d.empty())
            c.fail("files-changed", show_env(e) + " " + run_label(0, r) + ": " + d);
        else if (!w.fevents.empty())
            c.fail("files-touched", show_env(e) + " " + run_label(0, r) + ": " + w.fevents[0].op + " " + quote(w.fevents[0].path) + " (for a moment)");
        if (!w.commands.empty())
            c.fail("command-run", run_label(0, r) + " started a helper program: " + w.commands[0].cmd);
        if (s.prompted)
            c.fail("asked", run_label(0, r) + " read the terminal");
        if (p.out2.find("INFO] ::") != std::string::npos)
            c.fail("notice", run_label(0, r) + " printed a notice: " + quote(p.out2));
        if (p.out2.find("[a, n, y, s]") != std::string::npos)
            c.fail("asked", run_label(0, r) + " printed the question");
    }
    c.reach(std::string("opted out by ") + ((how & 1) ? "developer " : "") + ((how & 2) ? "environment " : "") + ((how & 4) ? "option" : ""));
    mix_run(c, r, s, p);
    c.mixs(show_env(e));
    for (auto & [k, x] : before)
        c.mixs(k + x.data.substr(0, 30));
    c.nontrivial = true;
    c.absorb(w);
}

// =============================================================================================== U05
struct observed
{
    std::string outcome, out;
    pend end;
    int code;
    std::string how;
    std::string err;
};

void u05(ctx & c)
{
    urun r;
    bool plain;
    r.p = app_prog(c, c.ch.of(app_names), c.ch.g(2) == 1, plain);
    if (c.ch.g(3) == 2)
        add_explicit(r, c, (int)c.ch.g(2));
    r.tty_in = c.ch.g(3) != 2;
    r.tty_err = c.ch.g(3) != 2;
    r.input = c.ch.of(answers);
    r.work = c.ch.of(std::vector<int64_t>{0, 100 * MS, 5 * SEC});
    r.moves = c.ch.g(6) == 5 ? c.ch.g(16) : 0;
    r.in_thread = c.ch.g(8) == 7;
    if (c.ch.g(8) == 7)
        r.closed = c.ch.g(8);
    if (c.ch.g(4) == 3)
    {
        r.read_rest = true;
        r.input += c.ch.of(std::vector<std::string>{"", "data\n", "first\nsecond\n", "\n\nlast"});
    }
    observed ref;
    {
        world w{c.ch};
        base_world(w);
        uenv e;
        urun q = r;
        q.opt_out = true;
        q.opt_out_value = "1";
        q.fp = {};
        process_t & p = start(w, q, e);
        w.run();
        ref = {p.report("outcome"), p.out1, p.end, p.exit_code, how_ended(p), p.out2};
        c.absorb(w);
        if (p.end != pend::exited)
        {
            c.fail("reference-run", "the run with update notifications off itself did not end normally: " + how_ended(p) + "; " + run_label(0, q));
            return;
        }
    }
    world w{c.ch};
    w.trace_on = c.trace_on;
    base_world(w);
    uenv e;
    e.extra = odd_vars(c);
    gen_epoch(c, w);
    gen_net(c, w);
    gen_sched(c, w, c.ch.g(4) == 3);
    odd_env(c, w, e, r.p.name, false);
    if (c.ch.g(2))
    {
        r.fp.classes = c.ch.of(std::vector<unsigned>{FC_FS, FC_OPEN, FC_STAT, FC_MKDIR, FC_READ, FC_WRITE | FC_CLOSE, FC_REMOVE | FC_RENAME, FC_SYSTEM, FC_SPAWN, FC_FS | FC_SYSTEM | FC_SPAWN, FC_FUTEX, FC_SPAWN | FC_OPEN});
        if (c.ch.g(2))
            r.fp.at = (int)c.ch.g(30);
        else
        {
            r.fp.num = c.ch.of(std::vector<uint32_t>{30, 150, 500, 1000});
            r.fp.max = 1 + c.ch.g(8);
        }
    }
    c.note(show_env(e));
    c.note(run_label(0, r));
    process_t & p = start(w, r, e);
    // the clock may jump, the state files may change under the program's feet
    if (c.ch.g(5) == 4)
        w.env_events.push_back({(int)c.ch.g(60), [d = c.ch.of(std::vector<int64_t>{-DAY, DAY, -400 * DAY, 4000 * DAY})](world & x) { x.jump_realtime(d); }});
    if (c.ch.g(6) == 5)
        w.env_events.push_back({(int)c.ch.g(60), [](world & x)
                                {
                                    if (auto n = x.fs.at("/home/u/.config/seqan"))
                                        if (n->type == ftype::dir)
                                        {
                                            n->mode = 0;
                                            x.stats["fault:state directory made inaccessible"]++;
                                        }
                                }});
    w.run();
    observed now{p.report("outcome"), p.out1, p.end, p.exit_code, how_ended(p), p.out2};
    if (c.want_desc)
    {
        std::string f;
        for (auto & x : p.failures)
            f += x + "; ";
        c.note("injected: " + f);
    }
    std::string const L = show_env(e) + " " + run_label(0, r);
    if (now.end != ref.end || now.code != ref.code)
        c.fail("end", L + ": the program " + now.how + " (outcome " + quote(now.outcome) + "), with notifications off it " + ref.how + " (outcome " + quote(ref.outcome) + "); stderr " + quote(now.err));
    else if (now.outcome != ref.outcome)
        c.fail("outcome", L + ": outcome " + quote(now.outcome) + ", with notifications off " + quote(ref.outcome));
    else if (now.out != ref.out)
        c.fail("stdout", L + ": standard output differs: " + quote(now.out) + " instead of " + quote(ref.out));
    seen s = look(w, p);
    if (!r.read_rest && p.in_reads && !(p.o.in == stdkind::tty && p.o.err == stdkind::tty))
        c.fail("stdin-consumed", L + ": read standard input although nobody can be asked there");
    if (r.read_rest && p.has_report("rest") && !(r.closed & 1))
    {
        bool failed = false;
        for (auto & x : p.failures)
            failed |= x.find("read") != std::string::npos;
        size_t const nl = r.input.find('\n');
        std::string const want = !s.prompted ? r.input : nl == std::string::npos ? "" : r.input.substr(nl + 1);
        if (!failed && p.report("rest") != want)
            c.fail("stdin-consumed", L + ": afterwards the program reads " + quote(p.report("rest")) + " from standard input instead of " + quote(want));
        c.reach(s.prompted ? "rest of the input read after the question" : "rest of the input read");
    }
    if (!p.failures.empty())
        c.reach("run with injected failures");
    if (!s.requests.empty())
        c.reach("request issued");
    if (s.prompted)
        c.reach("prompted");
    c.reach("outcome " + ref.outcome.substr(0, 2));
    mix_run(c, r, s, p);
    c.mixs(show_env(e));
    c.mixs(ref.outcome);
    c.nontrivial = true;
    advance(w, 200 * SEC);
    c.absorb(w);
}

// =============================================================================================== U06
void u06(ctx & c)
{
    world w{c.ch};
    w.trace_on = c.trace_on;
    base_world(w);
    uenv e;
    e.extra = odd_vars(c);
    gen_epoch(c, w);
    gen_net(c, w);
    if (c.ch.g(2))
        w.net.kinds = {net_kind::hang};
    gen_sched(c, w, c.ch.g(2));
    urun r;
    r.p = app_prog(c, "app", c.ch.g(5) == 4, r.plain);
    if (c.ch.g(4) != 3)
        add_explicit(r, c, 1);
    else
    {
        r.tty_in = r.tty_err = true;
        r.input = c.ch.of(std::vector<std::string>{"y\n", "a\n"});
    }
    r.work = c.ch.of(std::vector<int64_t>{0, 50 * US, 10 * MS, 49 * MS, SEC, 2990 * MS, 4 * SEC, 30 * SEC});
    r.moves = c.ch.g(4) == 3 ? c.ch.g(16) : 0;
    r.in_thread = c.ch.g(6) == 5;
    r.exit_how = (int)c.ch.of(std::vector<unsigned>{0, 0, 0, 0, 0, 0, 1, 2});
    if (c.ch.g(4) == 3)
    {
        r.fp.classes = c.ch.of(std::vector<unsigned>{FC_SYSTEM, FC_FUTEX, FC_SPAWN, FC_FS});
        r.fp.num = 300;
        r.fp.max = 1 + c.ch.g(3);
    }
    // several programs at the same time
    int const n = c.ch.g(5) == 4 ? 2 : 1;
    c.note(run_label(0, r));
    std::vector<process_t *> ps;
    for (int i = 0; i < n; ++i)
        ps.push_back(&start(w, r, e));
    int const jumps = (int)c.ch.g(3);
    for (int i = 0; i < jumps; ++i)
    {
        int64_t d = c.ch.of(std::vector<int64_t>{-HOUR, HOUR, -400 * DAY, 2 * SEC, -2 * SEC});
        c.note("clock changes by " + std::to_string(d / SEC) + " s");
        if (c.ch.g(2))
            w.at(w.now + 1000 * US + (int64_t)c.ch.g(4000) * MS, [&w, d] { w.jump_realtime(d); });
        else
            w.env_events.push_back({(int)c.ch.g(80), [d](world & x) { x.jump_realtime(d); }});
    }
    std::sort(w.env_events.begin(), w.env_events.end(), [](auto & a, auto & b) { return a.first < b.first; });
    w.run();
    for (auto * pp : ps)
    {
        process_t & p = *pp;
        std::string const L = run_label(0, r);
        if (p.end == pend::hung)
            c.fail("hang", L + ": the program never ends: " + how_ended(p));
        else if (p.end != pend::exited)
            c.fail("crash", L + ": the program " + how_ended(p));
        mark_rec const * m[6]{};
        for (auto & k : p.marks)
            if (k.value < 6 && !m[k.value])
                m[k.value] = &k;
        seen s = look(w, p);
        int64_t const slack = 200 * MS;
        int64_t req_done = NEVER, req_start = NEVER;
        for (int i : s.requests)
        {
            req_done = w.commands[i].finished;
            req_start = w.commands[i].t;
        }
        if (m[2])
        {
            int64_t const end = m[3] ? m[3]->t : p.t1;
            if (end - m[2]->t > slack + p.stalls)
                c.fail("parse-waits", L + ": parsing took " + std::to_string((end - m[2]->t) / MS) + " ms of simulated time (stalls " + std::to_string(p.stalls / MS)
                                          + " ms)");
        }
        if (m[4] && m[5])
        {
            int64_t const d = m[5]->t - m[4]->t - (m[5]->stalls - m[4]->stalls);
            if (d > 3 * SEC + 20 * MS)
                c.fail("destructor-waits", L + ": destroying the parser took " + std::to_string(d / MS) + " ms of simulated time");
            if (req_done != NEVER && m[5]->t > std::max(m[4]->t, req_done) + slack + p.stalls)
                c.fail("destructor-waits-after-answer", L + ": destroying the parser still waited " + std::to_string((m[5]->t - std::max(m[4]->t, req_done)) / MS)
                                                            + " ms after the request had finished");
            if (d > 2 * SEC)
                c.reach("destructor waited for the full grace");
            if (req_done != NEVER && m[4]->t < req_done && m[5]->t >= req_done)
                c.reach("request finished during destruction");
            if (m[5] && p.t1 - m[5]->t > slack + p.stalls)
                c.fail("exit-waits", L + ": the program took " + std::to_string((p.t1 - m[5]->t) / MS) + " ms to end after the parser was destroyed");
            if (s.requests.empty() && d > slack && !w.sched.stall_num)
                c.fail("waits-without-request", L + ": destroying the parser took " + std::to_string(d / MS) + " ms although there is no request");
        }
        else if (m[3] && r.exit_how == 2 && p.end == pend::exited && p.t1 - m[3]->t > 3 * SEC + slack + r.work + p.stalls)
            c.fail("exit-waits", L + ": ending the program with a static parser took " + std::to_string((p.t1 - m[3]->t - r.work) / MS) + " ms");
        else if (m[3] && r.exit_how == 1 && p.end == pend::exited && p.t1 - m[3]->t > slack + r.work + p.stalls)
            c.fail("exit-waits", L + ": std::exit took " + std::to_string((p.t1 - m[3]->t - r.work) / MS) + " ms");
        if (req_start != NEVER && req_done == NEVER)
            c.reach("program ended with the request in flight");
        if (req_start != NEVER && m[3] && req_start > m[3]->t)
            c.reach("request started after parse returned");
        c.mixs(m[4] && m[5] ? (uint64_t)((m[5]->t - m[4]->t) / (10 * MS)) : 0);
        mix_run(c, r, s, p);
    }
    c.mixs((uint64_t)r.work);
    c.nontrivial = !w.commands.empty();
    advance(w, 200 * SEC);
    c.absorb(w);
}

// =============================================================================================== U07
bool parse3(std::string const & s, uint64_t v[3], bool & huge)
{
    huge = false;
    size_t i = 0;
    for (int k = 0; k < 3; ++k)
    {
        if (k && (i >= s.size() || s[i++] != '.'))
            return false;
        if (i >= s.size() || !isdigit((unsigned char)s[i]))
            return false;
        uint64_t x = 0;
        while (i < s.size() && isdigit((unsigned char)s[i]))
        {
            if (x < (1ull << 55))
                x = x * 10 + (s[i] - '0');
            ++i;
        }
        if (x > 2147483647ull)
            huge = true;
        v[k] = x;
    }
    return i == s.size();
}
int cmp3(uint64_t const a[3], uint64_t const b[3])
{
    for (int k = 0; k < 3; ++k)
        if (a[k] != b[k])
            return a[k] < b[k] ? -1 : 1;
    return 0;
}

enum : unsigned { N_APP = 1, N_UNREG = 2, N_SHARG = 4, N_REG = 8 };

// must: notices that have to be printed; may: notices that may be
void expected_notices(bool exists, std::string const & content, std::string const & own_version, unsigned & must, unsigned & may)
{
    must = may = 0;
    if (!exists)
        return;
    std::vector<std::string> lines;
    size_t i = 0;
    while (lines.size() < 2)
    {
        size_t j = content.find('\n', i);
        lines.push_back(content.substr(std::min(i, content.size()), j == std::string::npos ? std::string::npos : j - i));
        if (j == std::string::npos)
            break;
        i = j + 1;
    }
    lines.resize(2);
    // the application's own version: leading x.y.z, else 0.0.0
    uint64_t own[3]{0, 0, 0}, srv[3], sh[3];
    bool h;
    {
        size_t k = 0;
        int dots = 0;
        std::string v;
        while (k < own_version.size() && (isdigit((unsigned char)own_version[k]) || (own_version[k] == '.' && dots < 2)))
        {
            if (own_version[k] == '.')
                ++dots;
            v += own_version[k++];
        }
        if (!parse3(v, own, h))
            own[0] = own[1] = own[2] = 0;
    }
    uint64_t const zero[3]{0, 0, 0};
    bool const unreg = lines[0] == "UNREGISTERED_APP";
    bool hs = false;
    bool const app_ok = parse3(lines[0], srv, hs) && cmp3(srv, zero) != 0;
    bool hh = false;
    bool const sh_ok = parse3(lines[1], sh, hh) && cmp3(sh, zero) != 0;
    uint64_t const me[3]{(uint64_t)sharg_ver(0), (uint64_t)sharg_ver(1), (uint64_t)sharg_ver(2)};
    auto add = [&](unsigned f, bool cond, bool uncertain)
    {
        if (cond)
        {
            may |= f;
            if (!uncertain)
                must |= f;
        }
    };
    if (release_build())
        add(N_APP, app_ok && cmp3(srv, own) > 0, hs);
    else
    {
        add(N_UNREG, unreg, false);
        add(N_SHARG, sh_ok && cmp3(sh, me) > 0, hh);
        add(N_REG, app_ok && cmp3(srv, own) < 0, hs);
    }
}

unsigned found_notices(std::string const & s, std::string & problem, std::string const & url)
{
    unsigned f = 0;
    auto count = [&](std::string const & x)
    {
        size_t n = 0, i = 0;
        while ((i = s.find(x, i)) != std::string::npos)
        {
            ++n;
            i += x.size();
        }
        return n;
    };
    size_t a = count("A new version of this application is now available"), u = count("Do you wish to register your app"),
           sh = count("A new Sharg version is available"), rg = count("newer than the one registered");
    if (a) f |= N_APP;
    if (u) f |= N_UNREG;
    if (sh) f |= N_SHARG;
    if (rg) f |= N_REG;
    if (a > 1 || u > 1 || sh > 1 || rg > 1)
        problem = "a notice is printed twice";
    if (a && !url.empty() && count("Visit " + url + " for updates") != 1)
        problem = "the announcement does not name the application's URL";
    if (!f && count("INFO] ::"))
        problem = "an unknown notice is printed";
    return f;
}

std::string show_notices(unsigned f)
{
    std::string s;
    if (f & N_APP) s += "new-application-version ";
    if (f & N_UNREG) s += "please-register ";
    if (f & N_SHARG) s += "new-sharg-version ";
    if (f & N_REG) s += "registration-outdated ";
    return s.empty() ? "none" : s;
}

// version numbers around the places where comparisons that are not lexicographic by component go wrong
std::string ver(ctx & c, std::string const & near)
{
    static std::vector<std::string> const v{"1.0.0", "1.0.1", "0.9.9", "2.0.0", "10.0.0", "9.9.9", "1.10.0", "1.9.9", "1.1.1", "0.0.1", "20.5.9", "2147483647.0.1", "1.0.10", "1.2.0", "01.00.01"};
    static std::vector<uint64_t> const part{0, 1, 2, 9, 10, 11, 99, 100, 101, 127, 128, 255, 256, 257, 999, 1000, 1001, 9999, 10000, 32767, 65535, 65536, 65537, 16777216, 16777217, 2147483646, 2147483647};
    auto join = [](uint64_t const x[3]) { return std::to_string(x[0]) + "." + std::to_string(x[1]) + "." + std::to_string(x[2]); };
    uint64_t x[3];
    bool h;
    switch (c.ch.g(4))
    {
    case 0:
    case 1: return c.ch.of(v);
    case 2:
        for (auto & y : x)
            y = c.ch.of(part);
        return join(x);
    default:
        if (!parse3(near, x, h) || h)
            return c.ch.of(v);
        // one component a little different, the lower ones arbitrary
        unsigned const k = c.ch.g(3);
        if (c.ch.g(2) && x[k] < 2147483647)
            ++x[k];
        else if (x[k] && c.ch.g(3))
            --x[k];
        for (unsigned j = k + 1; j < 3; ++j)
            if (c.ch.g(2))
                x[j] = c.ch.of(part);
        return join(x);
    }
}

std::string version_line(ctx & c, bool first, std::string const & own)
{
    switch (c.ch.g(8))
    {
    case 0:
    case 1:
    case 2: return ver(c, first ? own : std::to_string(sharg_ver(0)) + "." + std::to_string(sharg_ver(1)) + "." + std::to_string(sharg_ver(2)));
    case 3: if (first) return "UNREGISTERED_APP"; return ver(c, first ? own : std::to_string(sharg_ver(0)) + "." + std::to_string(sharg_ver(1)) + "." + std::to_string(sharg_ver(2)));
    case 4:
    {
        static std::vector<std::string> const bad{"", "1.0", "1.0.0.0", "1.0.x", "v2.0.0", "2.0.0-rc", " 9.9.9", "9.9.9 ", "9.9.9\r", "-9.9.9", "9..9", "<html>", "9.9", "UNREGISTERED_APP ", "unregistered_app", "9.9.", "+9.9.9",
                                                  "99999999999.5.0", "0.99999999999.1", "9.9.9.", "9,9,9", "0x9.9.9"};
        return c.ch.of(bad);
    }
    case 5: { std::string s = ver(c, first ? own : std::to_string(sharg_ver(0)) + "." + std::to_string(sharg_ver(1)) + "." + std::to_string(sharg_ver(2))); return s.substr(0, c.ch.g((uint32_t)s.size())); }
    default:
        return first ? ver(c, first ? own : std::to_string(sharg_ver(0)) + "." + std::to_string(sharg_ver(1)) + "." + std::to_string(sharg_ver(2)))
                     : std::to_string(sharg_ver(0)) + "." + std::to_string(sharg_ver(1)) + "." + std::to_string(sharg_ver(2) + (int)c.ch.g(3) - (sharg_ver(2) > 0 ? 1 : 0));
    }
}

void u07(ctx & c)
{
    world w{c.ch};
    w.trace_on = c.trace_on;
    base_world(w);
    uenv e;
    e.extra = odd_vars(c);
    bool const concurrent = c.ch.g(3) == 2;
    bool const faulty = c.ch.g(4) == 3;
    gen_sched(c, w, c.ch.g(5) == 4);
    w.net.kinds = {net_kind::ok_fast, net_kind::ok_slow, net_kind::torn, net_kind::http_error, net_kind::garbage, net_kind::hang, net_kind::refused};
    if (c.ch.g(2) == 0)
        w.net.kinds = {net_kind::ok_fast};
    w.net.wget = c.ch.g(6) != 5;
    std::string const sd = "/home/u/.config/seqan";
    w.fs.mkdirs("/home/u/.config", 0755, 1000);
    w.fs.mkdirs(sd, 0755, 1000);
    static std::vector<std::string> const owns{"1.0.0", "", "1.0", "2.3.4-rc1", "1.10.0", "0.0.1", "v1.0.0", "1.0.0.7", "2147483647.0.0", "10.0.0-dev", "1.2.x"};
    std::string const own = c.ch.g(2) ? ver(c, "1.0.0") : c.ch.of(owns);
    std::vector<std::string> names{"app", "app2"};
    for (auto & n : names)
        w.net.answers[n] = version_line(c, true, own) + "\n" + version_line(c, false, own) + (c.ch.g(3) ? "\n" : "");
    for (auto & n : names)
        switch (c.ch.g(5))
        {
        case 0: break;
        case 1: w.fs.file(sd + "/" + n + ".version", version_line(c, true, own)); break;
        default: w.fs.file(sd + "/" + n + ".version", version_line(c, true, own) + "\n" + version_line(c, false, own) + (c.ch.g(2) ? "\n" : ""));
        }
    if (c.ch.g(6) == 5)
        w.fs.file(sd + "/" + c.ch.of(names) + cookie_suffix(), std::to_string(w.realtime() / SEC - 100000) + "\nALWAYS");
    std::string const url = c.ch.of(std::vector<std::string>{"", "https://example.org/a"});

    // contents of each version file over time
    struct stored
    {
        int first;
        std::string second; // "\x01" + data or "" if absent
        int writer;
    };
    std::map<std::string, std::vector<stored>> hist, hist2;
    auto sample = [&](int seq)
    {
        for (auto & n : names)
            for (int fallback = 0; fallback < 2; ++fallback)
            {
                auto f = w.fs.at((fallback ? "/tmp" : sd) + "/" + n + ".version");
                std::string x = f && f->type == ftype::reg ? "\x01" + f->data : "";
                auto & h = (fallback ? hist2 : hist)[n];
                if (h.empty() || h.back().second != x)
                    h.push_back({seq, x, w.fevents.empty() ? -1 : w.fevents.back().proc});
            }
    };
    size_t fseen = 0;
    sample(0);
    w.after_op = [&](world & x, thread_t &)
    {
        if (x.fevents.size() != fseen)
        {
            fseen = x.fevents.size();
            sample(x.fevents.back().seq);
        }
    };
    int const steps = 1 + (int)c.ch.g(4);
    for (int step = 0; step < steps && !c.bad(); ++step)
    {
        int const n = concurrent ? 1 + (int)c.ch.g(3) : 1;
        std::vector<urun> rs;
        std::vector<process_t *> ps;
        for (int k = 0; k < n; ++k)
        {
            urun r;
            r.p = app_prog(c, c.ch.of(names), c.ch.g(8) == 7, r.plain);
            r.p.version = own;
            r.p.url = url;
            unsigned m = c.ch.g(8);
            if (m < 5)
                add_explicit(r, c, 1);
            else if (m == 5)
                add_explicit(r, c, 0);
            else if (m == 6)
                r.opt_out = true;
            r.tty_in = r.tty_err = m >= 5 || c.ch.g(2);
            r.input = c.ch.of(answers);
            r.work = c.ch.of(std::vector<int64_t>{0, SEC, 12 * SEC});
            if (faulty)
            {
                r.fp.classes = c.ch.of(std::vector<unsigned>{FC_OPEN, FC_READ, FC_STAT, FC_SYSTEM, FC_SPAWN, FC_FS, FC_SHORT | FC_READ});
                r.fp.num = 200;
                r.fp.max = 1 + c.ch.g(3);
            }
            if (n > 1)
                r.delay = c.ch.of(std::vector<int64_t>{0, 20 * MS, 33 * MS, 45 * MS, SEC});
            c.note(run_label(step, r));
            rs.push_back(r);
        }
        sample(w.seq);
        for (auto & nm : names)
            c.note("version file of " + nm + ": " + (hist[nm].back().second.empty() ? "absent" : quote(hist[nm].back().second.substr(1))));
        for (auto & r : rs)
            ps.push_back(&start(w, r, e));
        w.run();
        sample(w.seq);
        if (!w.harness_error.empty())
            break;
        for (int k = 0; k < n; ++k)
        {
            process_t const & p = *ps[k];
            urun const & r = rs[k];
            seen s = look(w, p);
            std::string problem;
            unsigned const got = found_notices(p.out2, problem, url);
            std::string p1;
            unsigned const on_stdout = found_notices(p.out1, p1, "");
            std::string const L = run_label(step, r);
            if (on_stdout || (!p1.empty() && p1 != "the announcement does not name the application's URL"))
                c.fail("notice-on-stdout", L + " printed a notice on standard output: " + show_notices(on_stdout));
            if (!problem.empty())
                c.fail("notice-odd", L + ": " + problem + ": " + quote(p.out2));
            consent a, o, v;
            meaning(s.answer, a, o, v);
            auto ck = w.fs.at(sd + "/" + r.p.name + cookie_suffix());
            bool const off = !r.p.update_on || r.opt_out || r.explicit_ == 0;
            bool const performed_sure = r.explicit_ == 1 && !r.opt_out && r.plain;
            // versions of the file the run may have read
            unsigned may_any = 0;
            bool exact = false;
            std::string opts;
            auto & h = hist[r.p.name];
            for (size_t i = 0; i < h.size(); ++i)
            {
                int const from = h[i].first, to = i + 1 < h.size() ? h[i + 1].first : INT32_MAX;
                if (to < p.seq0 || from > p.seq1)
                    continue;
                unsigned must, may;
                expected_notices(!h[i].second.empty(), h[i].second.empty() ? "" : h[i].second.substr(1), own, must, may);
                may_any |= may;
                if ((got & must) == must && (got & ~may) == 0)
                    exact = true;
                opts += "{" + show_notices(must) + "}";
                // the file is replaced by the download of another program while this one reads it: the old text up to some byte, the
                // new one behind it
                if (i + 1 < h.size() && to <= p.seq1 && h[i + 1].writer != -1000 - p.id && !h[i].second.empty())
                    for (size_t j = i + 1; j < h.size() && h[j].first <= p.seq1; ++j)
                        for (size_t k = 1; k < h[i].second.size() && k < h[j].second.size(); ++k)
                        {
                            if (k > 100 && k % 1024 > 2 && k % 1024 < 1022 && k + 1 != h[i].second.size())
                                continue;
                            expected_notices(true, h[i].second.substr(1, k) + h[j].second.substr(1 + k), own, must, may);
                            may_any |= may;
                            if ((got & must) == must && (got & ~may) == 0)
                                exact = true;
                        }
            }
            if (!p.failures.empty())
            {
                // may have used the temporary directory instead
                auto & h2 = hist2[r.p.name];
                for (size_t i = 0; i < h2.size(); ++i)
                    if (h2[i].first <= p.seq1 && (i + 1 == h2.size() || h2[i + 1].first >= p.seq0) && !h2[i].second.empty())
                    {
                        unsigned must, may;
                        expected_notices(true, h2[i].second.substr(1), own, must, may);
                        may_any |= may;
                        opts += "{" + show_notices(must) + " in /tmp}";
                    }
            }
            if (off && got)
                c.fail("notice-unperformed", L + " printed a notice (" + show_notices(got) + ") although no check is to be performed");
            if (got & ~may_any)
                c.fail("notice-false", L + " printed " + show_notices(got) + " which the stored answer does not say (possible: " + opts + "); own version " + quote(own));
            if (p.failures.empty() && p.end == pend::exited && performed_sure && !exact)
                c.fail("notice-missing", L + " printed " + show_notices(got) + ", expected one of " + opts + "; own version " + quote(own));
            if (r.explicit_ == -1 && s.requests.empty() && got && p.failures.empty() && (w.net.wget || w.net.curl) && !w.sched.stall_num && r.plain)
                c.fail("notice-unperformed", L + " printed a notice without performing a check");
            if (got)
                c.reach("notice: " + show_notices(got));
            if (performed_sure)
                c.reach("performed checks judged exactly");
            mix_run(c, r, s, p);
            c.mixs(got);
            c.mixs(opts);
        }
        advance(w, c.ch.of(std::vector<int64_t>{20 * SEC, HOUR, 2 * DAY, 300 * MS}));
    }
    c.nontrivial = hist["app"].size() + hist["app2"].size() > 2 || w.commands.size();
    w.after_op = nullptr;
    c.absorb(w);
}

// =============================================================================================== U08
std::string lexical(std::string const & p)
{
    std::string r;
    for (size_t i = 0; i < p.size(); ++i)
        if (!(p[i] == '/' && i && p[i - 1] == '/'))
            r += p[i];
    return r;
}

void u08(ctx & c)
{
    world w{c.ch};
    w.trace_on = c.trace_on;
    base_world(w);
    uenv e;
    e.extra = odd_vars(c);
    gen_net(c, w);
    gen_sched(c, w, false);
    urun r;
    r.p = app_prog(c, c.ch.of(app_names), c.ch.g(4) == 3, r.plain);
    static std::vector<std::string> const bad_names{"", "a b", "app;x", "app/../x", "$(id)", "app\n", "app'", "app.x", "ü", "app\nx", "../x", "app|x", "`id`", "a*", "app\r", "a%s", "a\xc3\xa4"};
    static std::vector<std::string> const versions{"1.0.0", "1.0.0;touch pwned", "$(touch pwned)", "1.2.3 && x", "x1.2.3", "1.2.3\n4", "", "0.0.0", "3.4.5'", "1.2", "12.34.56-7", "1.2.3`x`", "1.2.3.4"};
    bool bad_name = false;
    if (c.ch.g(4) == 3)
    {
        if (!r.p.subcommands.empty() && c.ch.g(2))
        {
            r.p.subcommands.push_back(c.ch.of(bad_names));
            bad_name = true;
        }
        else
        {
            r.p.name = c.ch.of(bad_names);
            bad_name = true;
        }
    }
    r.p.version = c.ch.of(versions);
    r.p.url = c.ch.of(std::vector<std::string>{"", "https://x/$(touch pwned)", "x'; touch pwned; '", "https://example.org"});
    if (c.ch.g(5) != 4)
        add_explicit(r, c, c.ch.g(6) != 5);
    r.tty_in = r.tty_err = c.ch.g(3) != 2;
    r.input = c.ch.of(answers);
    r.work = c.ch.of(std::vector<int64_t>{0, SEC});
    odd_env(c, w, e, "app", c.ch.g(3) != 2);
    if (c.ch.g(5) == 4)
    {
        r.fp.classes = c.ch.of(std::vector<unsigned>{FC_FS, FC_SYSTEM, FC_MKDIR, FC_OPEN});
        r.fp.num = 200;
        r.fp.max = 1 + c.ch.g(3);
    }
    c.note(show_env(e));
    c.note(run_label(0, r));
    auto const before = w.fs.snapshot();
    process_t & p = start(w, r, e);
    w.run();
    advance(w, 60 * SEC);
    auto const after = w.fs.snapshot();
    std::string const L = show_env(e) + " " + run_label(0, r);
    if (bad_name)
    {
        c.reach("invalid name");
        std::string d = diff_snap(before, after, false);
        if (!w.commands.empty())
            c.fail("bad-name-command", L + " ran a command: " + quote(w.commands[0].cmd));
        if (!d.empty())
            c.fail("bad-name-files", L + ": " + d);
        if (!w.fevents.empty())
            c.fail("bad-name-files", L + ": touched " + quote(w.fevents[0].path));
        if (p.report("outcome").find("design_error") == std::string::npos)
            c.fail("bad-name-accepted", L + ": outcome " + quote(p.report("outcome")));
    }
    // expected plain version
    std::string v = "0.0.0";
    {
        auto const & s = r.p.version;
        size_t i = 0;
        std::string t;
        for (int k = 0; k < 3; ++k)
        {
            if (k)
            {
                if (i >= s.size() || s[i] != '.')
                    goto no;
                t += s[i++];
            }
            size_t b = i;
            while (i < s.size() && isdigit((unsigned char)s[i]))
                t += s[i++];
            if (b == i)
                goto no;
        }
        v = t;
    no:;
    }
    std::vector<std::string> dirs;
    if (e.home_set)
        dirs.push_back(lexical(e.home + "/.config/seqan"));
    dirs.push_back(e.tmp_set && !e.tmp.empty() ? lexical(e.tmp) : "/tmp");
    dirs.push_back("/tmp");
    std::set<std::string> allowed_new;
    for (auto & d : dirs)
    {
        allowed_new.insert(d + "/" + r.p.name + ".version");
        allowed_new.insert(d + "/" + r.p.name + cookie_suffix());
    }
    for (auto const & q : w.commands)
    {
        std::string why;
        auto const & wd = q.pc.words;
        if (!q.pc.simple)
            why = "a shell reads more than one simple command: " + q.pc.problem;
        else
        {
            for (auto & [op, to] : q.pc.redirects)
                if (!(to == "/dev/null" || (op.find('&') != std::string::npos && (to == "1" || to == "2" || to == "/dev/null"))))
                    why = "it redirects to " + quote(to);
            if (why.empty() && q.program != "wget" && q.program != "curl")
                why = "it starts " + quote(q.program);
            else if (why.empty() && q.is_probe)
            {
                size_t i = 0;
                if (i < wd.size() && (wd[i] == "/usr/bin/env" || wd[i] == "env"))
                    for (++i; i < wd.size() && wd[i] == "-i"; ++i)
                        ;
                if (wd.size() != i + 2 || wd[i + 1] != "--version")
                    why = "it is no plain probe";
            }
            else if (why.empty())
            {
                std::string const url = "https://seqan-update.informatik.uni-tuebingen.de/check/SeqAn-Sharg_Linux_64_" + r.p.name + "_" + v;
                int urls = 0;
                for (auto & x : wd)
                    if (x.find("://") != std::string::npos)
                    {
                        ++urls;
                        if (x != url)
                            why = "it asks for " + quote(x) + " instead of " + quote(url);
                    }
                if (urls != 1)
                    why = "it names " + std::to_string(urls) + " addresses";
                bool ok = false;
                std::string const got = lexical(q.out_path);
                for (auto & d : dirs)
                    ok |= got == d + "/" + r.p.name + ".version";
                if (!ok)
                    why = "it writes to " + quote(q.out_path);
                // every word is the program prefix, an option, an option's number, the file or the address
                for (auto & x : wd)
                    if (x != "/usr/bin/env" && x != "env" && x != q.program && x != url && x != q.out_path && x[0] != '-'
                        && x.find_first_not_of("0123456789.") != std::string::npos)
                        why = "it contains the stray word " + quote(x);
                c.reach("request judged");
            }
        }
        if (!why.empty())
            c.fail(!q.pc.simple ? "not-one-command" : "not-documented", L + ": the command " + quote(q.cmd) + " is not the documented request: " + why);
    }
    // nothing else appears
    for (auto & [k, x] : after)
        if (!before.count(k) && x.type != ftype::dir && p.failures.empty() && !bad_name && e.home_set && !e.home.empty() && e.home[0] == '/')
        {
            // through a symbolic link the name differs: compare the last component then
            bool ok = false;
            for (auto & a : allowed_new)
                ok |= k == a || k.substr(k.rfind('/')) == a.substr(a.rfind('/'));
            if (!ok && !(p.end != pend::exited))
                c.fail("stray-file", L + ": " + quote(k) + " appeared");
        }
    if (e.home.find_first_of(" ;$`&|<>'\"\n*\\") != std::string::npos && !w.commands.empty())
        c.reach("command with an odd HOME");
    seen s = look(w, p);
    mix_run(c, r, s, p);
    c.mixs(show_env(e));
    c.mixs(r.p.version + r.p.name);
    c.nontrivial = bad_name || !w.commands.empty();
    c.absorb(w);
}

// =============================================================================================== U09
// Which changes of the file system one or several runs may leave behind.
void u09(ctx & c)
{
    world w{c.ch};
    w.trace_on = c.trace_on;
    base_world(w);
    w.fs.put("/home/u/work/data.txt", ftype::reg, "data", 0644, 1000);
    uenv e;
    e.extra = odd_vars(c);
    gen_epoch(c, w);
    gen_net(c, w);
    gen_sched(c, w, c.ch.g(5) == 4);
    std::vector<std::string> const names = gen_names(c);
    if (c.ch.g(3) == 2)
    {
        int64_t st;
        seed_cookie(c, w, e, names[0], c.ch.g(2), st);
    }
    else
        odd_env(c, w, e, names[0], c.ch.g(3) == 2);
    if (!c.ch.g(3))
        w.fs.file("/tmp/" + c.ch.of(names) + c.ch.of(std::vector<std::string>{"", ".timestamp", "_usr.timestamp.bak", ".version.old", ".tmp"}), "keep");
    // other temporary directories that the environment may name
    if (c.ch.g(6) == 5)
    {
        std::string const v = c.ch.of(std::vector<std::string>{"TMP", "TEMP", "TEMPDIR", "XDG_CONFIG_HOME", "XDG_CACHE_HOME", "PWD", "OLDPWD"});
        w.fs.mkdirs("/home/u/other", 0755, 1000);
        e.extra[v] = "/home/u/other";
    }
    bool const faulty = c.ch.g(2);
    int const steps = 1 + (int)c.ch.g(3);
    cred const root{0, 0};
    auto ino_of = [&](std::string const & p, bool follow) -> uint64_t
    {
        lookup l = w.fs.resolve(w.fs.at(e.cwd).get(), p, root, follow);
        return l.err || !l.node ? 0 : l.node->ino;
    };
    for (int step = 0; step < steps && !c.bad(); ++step)
    {
        int const n = c.ch.g(5) == 4 ? 2 : 1;
        std::vector<urun> rs;
        std::vector<process_t *> ps;
        for (int k = 0; k < n; ++k)
        {
            urun r;
            r.p = app_prog(c, c.ch.of(names), c.ch.g(4) == 3, r.plain);
            r.p.update_on = c.ch.g(10) != 9;
            if (c.ch.g(3) == 2)
                add_explicit(r, c, (int)c.ch.g(2));
            if (c.ch.g(10) == 9)
                r.opt_out = true;
            r.tty_in = c.ch.g(4) != 3;
            r.tty_err = c.ch.g(5) != 4;
            r.input = c.ch.of(answers);
            r.work = c.ch.of(std::vector<int64_t>{0, 10 * MS, 2 * SEC, 20 * SEC});
            r.moves = c.ch.g(12) == 11 ? c.ch.g(16) : 0;
            r.exit_how = (int)c.ch.of(std::vector<unsigned>{0, 0, 0, 0, 0, 0, 1, 2});
            if (faulty && c.ch.g(3))
            {
                if (c.ch.g(4) == 0)
                    gen_crash(c, r, 60);
                else
                {
                    r.fp.classes = c.ch.of(std::vector<unsigned>{FC_FS & ~FC_REMOVE, FC_OPEN, FC_WRITE | FC_CLOSE, FC_READ, FC_STAT, FC_MKDIR | FC_RENAME, FC_RENAME, FC_SYSTEM, FC_SPAWN, FC_FS, FC_SHORT | FC_WRITE, FC_FUTEX});
                    if (c.ch.g(2))
                        r.fp.at = (int)c.ch.g(25);
                    else
                    {
                        r.fp.num = c.ch.of(std::vector<uint32_t>{50, 200, 500});
                        r.fp.max = 1 + c.ch.g(6);
                    }
                }
            }
            if (n > 1)
                r.delay = c.ch.of(std::vector<int64_t>{0, 1 * MS, 20 * MS, 45 * MS, SEC});
            rs.push_back(r);
        }
        c.note(show_env(e));
        for (auto & r : rs)
            c.note(run_label(step, r));
        std::string L = show_env(e);
        for (auto & r : rs)
            L += " " + run_label(step, r);

        auto const before = w.fs.snapshot();
        size_t const f0 = w.fevents.size(), c0 = w.commands.size();
        std::string const conf = e.home_set && !e.home.empty() ? e.home + "/.config" : "", sd = conf.empty() ? "" : conf + "/seqan";
        bool const sd_fine = !sd.empty() && [&]
        {
            lookup l = w.fs.resolve(w.fs.at(e.cwd).get(), sd, cred{}, true);
            return !l.err && l.node && l.node->type == ftype::dir && vfs::access(*l.node, cred{}, 7) && !l.mnt && !l.node->mnt;
        }();
        for (auto & r : rs)
            ps.push_back(&start(w, r, e));
        w.run();
        advance(w, c.ch.of(std::vector<int64_t>{200 * SEC, DAY + HOUR, 2 * DAY}));
        auto const after = w.fs.snapshot();

        bool untidy = false, any_failure = false;
        std::set<std::string> own_cookies, own_versions;
        for (int k = 0; k < n; ++k)
        {
            process_t const & p = *ps[k];
            own_cookies.insert(rs[k].p.name + cookie_suffix());
            for (size_t i = c0; i < w.commands.size(); ++i)
                if (w.commands[i].is_request && w.commands[i].proc == p.id)
                    own_versions.insert(rs[k].p.name + ".version");
            untidy |= p.end != pend::exited;
            any_failure |= !p.failures.empty();
            for (auto & f : p.failures)
                untidy |= f.find("unlink") != std::string::npos;
            if (p.end == pend::exited && p.leaked_fds)
                c.fail("descriptor-leak", L + ": " + std::to_string(p.leaked_fds) + " descriptors were left open");
            mix_run(c, rs[k], look(w, p), p);
        }
        // the directories that may hold state
        std::map<uint64_t, bool> state_dirs; // inode, is the one in HOME
        for (std::string t : {e.tmp_set ? e.tmp : "", e.extra.count("TMP") ? e.extra["TMP"] : "", e.extra.count("TEMP") ? e.extra["TEMP"] : "",
                              e.extra.count("TEMPDIR") ? e.extra["TEMPDIR"] : "", std::string("/tmp")})
            if (!t.empty())
                state_dirs[ino_of(t, true)] = false;
        uint64_t const ihome = sd.empty() ? 0 : ino_of(e.home, true), iconf = sd.empty() ? 0 : ino_of(conf, true), isd = sd.empty() ? 0 : ino_of(sd, true);
        if (isd)
            state_dirs[isd] = true;
        state_dirs.erase(0);
        auto parent = [](std::string const & k) { return k.rfind('/') == 0 ? std::string("/") : k.substr(0, k.rfind('/')); };
        auto leaf = [](std::string const & k) { return k.substr(k.rfind('/') + 1); };
        auto wellformed = [](std::string const & d)
        {
            size_t const l = d.find('\n');
            if (l == std::string::npos || !l || d.find_first_not_of("0123456789") != l)
                return false;
            std::string const x = d.substr(l + 1);
            return x == "ASK" || x == "ALWAYS" || x == "NEVER";
        };
        // the request may write through a link that the user made
        std::set<uint64_t> through;
        for (auto & v : own_versions)
            for (auto & [k, x] : before)
                if (leaf(k) == v && x.type == ftype::lnk)
                    if (uint64_t const i = ino_of(k, true))
                        through.insert(i);
        auto judge = [&](std::string const & k, vfs::entry const * a, vfs::entry const * b)
        {
            std::string const what = quote(k) + (a ? b ? " was changed" : " was removed" : " was left behind") + (a && a->type == ftype::reg ? " (it was " + quote(a->data.substr(0, 60)) + ")" : "")
                                   + (b && b->type == ftype::reg ? " (now " + quote(b->data.substr(0, 60)) + ")" : "");
            auto pi = after.find(parent(k));
            uint64_t const pino = pi == after.end() ? 0 : pi->second.ino;
            bool const in_state = state_dirs.count(pino);
            if (!a && b->type == ftype::dir)
            {
                if ((pino == ihome && leaf(k) == ".config") || (pino == iconf && leaf(k) == "seqan"))
                    return;
                c.fail("stray-directory", L + ": the directory " + what);
                return;
            }
            if (in_state && b && b->type == ftype::reg && own_cookies.count(leaf(k)) && (!a || a->type != ftype::dir))
            {
                if (!wellformed(b->data))
                    c.fail("malformed-state", L + ": the state file " + what);
                if (!state_dirs[pino] && sd_fine && !any_failure)
                    c.fail("wrong-place", L + ": state is kept in the temporary directory although " + quote(sd) + " is usable: " + what);
                c.reach("own state file written");
                return;
            }
            if (in_state && b && b->type == ftype::reg && own_versions.count(leaf(k)) && (!a || a->type != ftype::dir))
            {
                if (!state_dirs[pino] && sd_fine && !any_failure)
                    c.fail("wrong-place", L + ": the answer is kept in the temporary directory although " + quote(sd) + " is usable: " + what);
                c.reach("own version file written");
                return;
            }
            if (b && through.count(b->ino))
                return;
            if (!a && in_state && untidy)
            {
                c.reach("left behind by a crash or a failing removal");
                return;
            }
            if (a)
                c.fail("foreign-changed", L + ": " + what);
            else
                c.fail("left-behind", L + ": " + what);
        };
        for (auto & [k, a] : before)
        {
            auto it = after.find(k);
            if (it == after.end())
                judge(k, &a, nullptr);
            else if (!a.same(it->second))
                judge(k, &a, &it->second);
        }
        for (auto & [k, b] : after)
            if (!before.count(k))
                judge(k, nullptr, &b);
        for (auto & [k, b] : after)
            c.mixs(k);

        // what was there for a moment may be something of the user's next time
        std::set<std::string> moment;
        for (size_t i = f0; i < w.fevents.size(); ++i)
            if (w.fevents[i].op.find("create") != std::string::npos && !w.fs.at(w.fevents[i].path))
                moment.insert(w.fevents[i].path);
        if (!moment.empty())
        {
            c.reach("files that exist for a moment");
            for (auto & m : moment)
                if (c.ch.g(3) == 2)
                {
                    if (auto d = w.fs.at(parent(m)); d && d->type == ftype::dir && !own_cookies.count(leaf(m)))
                    {
                        if (c.ch.g(3))
                            w.fs.file(m, "precious", c.ch.g(3) ? 0644 : 0444);
                        else if (c.ch.g(2))
                            w.fs.put(m, ftype::lnk, "/home/u/work/data.txt", 0777, 1000);
                        else
                            w.fs.mkdirs(m, 0755, 1000);
                        c.note("the user now owns " + m);
                        c.reach("such a name is in use");
                    }
                }
        }
        c.nontrivial |= w.fevents.size() > f0;
    }
    c.absorb(w);
}

// =============================================================================================== P04
// What a program set up is as it was after the library did its work.
void p04(ctx & c)
{
    world w{c.ch};
    w.trace_on = c.trace_on;
    base_world(w);
    uenv e;
    e.extra = odd_vars(c);
    gen_net(c, w);
    gen_sched(c, w, c.ch.g(6) == 5);
    process_t * pp{};
    std::string L;
    bool asked_ok = false, streams_ok = false;
    unsigned const arm = c.ch.g(3);
    if (arm < 2)
    {
        urun r;
        if (arm == 0)
        {
            r.p = app_prog(c, c.ch.of(app_names), c.ch.g(2), r.plain);
            odd_env(c, w, e, r.p.name, false);
        }
        else // everything a command line can be
        {
            gen_opts g;
            g.special = c.ch.g(3) == 0;
            g.errors = true;
            g.user_validators = c.ch.g(2);
            g.file_validators = c.ch.g(2);
            g.rich = c.ch.g(2);
            r.p = gen_prog(c, g);
            r.p.update_on = c.ch.g(3) == 2;
            r.p.locale = c.ch.g(4) == 3;
        }
        if (c.ch.g(3) == 2)
            add_explicit(r, c, (int)c.ch.g(2));
        r.tty_in = c.ch.g(3) != 2;
        r.tty_err = c.ch.g(3) != 2;
        r.input = c.ch.of(answers);
        r.work = c.ch.of(std::vector<int64_t>{0, 100 * MS, 5 * SEC});
        r.moves = c.ch.g(5) == 4 ? c.ch.g(16) : 0;
        r.in_thread = c.ch.g(6) == 5;
        r.state = true;
        if (c.ch.g(8) == 7)
            r.closed = c.ch.g(8);
        if (c.ch.g(2))
        {
            r.fp.classes = c.ch.of(std::vector<unsigned>{FC_FS, FC_OPEN, FC_STAT, FC_MKDIR, FC_READ, FC_WRITE | FC_CLOSE, FC_REMOVE | FC_RENAME, FC_SYSTEM, FC_SPAWN, FC_FS | FC_SYSTEM | FC_SPAWN, FC_FUTEX, FC_STDIO, FC_STDIO | FC_FS});
            if (c.ch.g(2))
                r.fp.at = (int)c.ch.g(30);
            else
            {
                r.fp.num = c.ch.of(std::vector<uint32_t>{30, 150, 500, 1000});
                r.fp.max = 1 + c.ch.g(8);
            }
        }
        L = show_env(e) + " " + run_label(0, r);
        asked_ok = r.tty_in && r.tty_err;
        streams_ok = r.closed || (r.fp.classes & FC_STDIO);
        pp = &start(w, r, e);
    }
    else
    {
        w.fs.mkdirs("/home/u/work/d", 0755, 1000);
        w.fs.mkdirs("/home/u/work/ro", 0555, 1000);
        w.fs.mkdirs("/home/u/work/none", 0000, 1000);
        w.fs.file("/home/u/work/f.txt", "x");
        w.fs.file("/home/u/work/d/g.fa.gz", "x");
        w.fs.file("/home/u/work/secret.txt", "x", 0000);
        w.fs.put("/home/u/work/l.txt", ftype::lnk, "f.txt", 0777, 1000);
        w.fs.put("/home/u/work/dangling.txt", ftype::lnk, "nowhere", 0777, 1000);
        w.fs.put("/home/u/work/pipe.txt", ftype::fifo, "", 0644, 1000);
        static std::vector<std::string> const paths{"f.txt", "new.txt", "d", "d/g.fa.gz", "d/new.txt", "ro", "ro/new.txt", "none/x.txt", "secret.txt", "l.txt", "dangling.txt", "pipe.txt", "", ".", "..",
                                                    "newdir", "d/n1/n2", "f.txt/x.txt", "/dev/null", "/home/u/work/d/", "./d/../f.txt", std::string(300, 'n') + ".txt", "/home/u/work/f.txt"};
        std::vector<file_check> cs;
        for (int n = 1 + (int)c.ch.g(3); n > 0; --n)
        {
            file_check k;
            k.kind = (file_check::kind_t)c.ch.g(4);
            k.create_new = c.ch.g(2);
            if (k.kind < file_check::in_dir && c.ch.g(2))
                k.exts = c.ch.of(std::vector<std::vector<std::string>>{{"txt"}, {"fa", "fa.gz"}, {"sam"}});
            k.path = c.ch.of(paths);
            k.via_parser = c.ch.g(2);
            if (k.via_parser && c.ch.g(4) == 3)
            {
                k.as_list = true;
                k.path2 = c.ch.of(paths);
            }
            L += " [" + std::to_string(k.kind) + (k.create_new ? " create_new " : " open_or_create ") + quote(k.path) + (k.as_list ? " " + quote(k.path2) : "") + (k.via_parser ? " parser" : "") + "]";
            cs.push_back(k);
        }
        proc_opts o;
        o.name = "files";
        o.cwd = "/home/u/work";
        if (c.ch.g(2))
        {
            o.fp.classes = c.ch.of(std::vector<unsigned>{FC_FS, FC_OPEN, FC_STAT, FC_MKDIR, FC_WRITE | FC_CLOSE, FC_REMOVE | FC_RENAME, FC_READDIR});
            if (c.ch.g(2))
                o.fp.at = (int)c.ch.g(20);
            else
            {
                o.fp.num = c.ch.of(std::vector<uint32_t>{100, 500, 1000});
                o.fp.max = 1 + c.ch.g(4);
            }
        }
        body_opts b;
        b.env = e.extra;
        b.env["HOME"] = "/home/u";
        b.env["PATH"] = "/usr/bin:/bin";
        b.state = true;
        o.body = [cs, b] { return body_files(cs, b); };
        pp = &w.spawn(std::move(o));
    }
    c.note(L);
    w.run();
    process_t const & p = *pp;
    if (p.has_report("state"))
    {
        std::string d = p.report("state"), line;
        bool const asked = !p.in_events.empty() || p.in_reads;
        for (size_t i = 0; i < d.size(); i += line.size() + 1)
        {
            line = d.substr(i, d.find('\n', i) - i);
            if (line.empty())
                continue;
            if (asked_ok && asked && line.rfind("std::cin state", 0) == 0)
                continue;
            if (streams_ok && line.rfind("std::c", 0) == 0 && line.find(" state: ") != std::string::npos)
                continue;
            c.fail("changed " + line.substr(0, line.find(':')), L + ": afterwards is different: " + line);
        }
        c.reach("process state compared");
    }
    else
        c.reach("ended inside the parser");
    if (p.end == pend::exited && p.leaked_fds)
        c.fail("descriptor-leak", L + ": " + std::to_string(p.leaked_fds) + " descriptors were left open");
    if (!p.failures.empty())
        c.reach("run with injected failures");
    for (auto & f : p.failures)
        c.mixs(f);
    c.mixs(L);
    c.mixs(p.report("outcome"));
    c.nontrivial = p.has_report("state");
    advance(w, 200 * SEC);
    c.absorb(w);
}
} // namespace

std::vector<scenario> u_scenarios()
{
    return {
        {"U01", u01, "history of 1-5 steps (sometimes 2-3 programs at once) of 1-2 applications with seeded state files, answers, explicit options, opt-outs, clock jumps, storage faults, crashes, power loss"},
        {"U02", u02, "history of 2-7 runs with healthy storage over days, with answers and crashes at any operation"},
        {"U03", u03, "history of 2-7 runs; decisions stored early; later runs with storage faults, crashes, explicit options, opt-outs, other applications"},
        {"U04", u04, "one opted-out run in an odd environment (HOME/TMPDIR/state directory contents), with faults or a crash"},
        {"U05", u05, "one run in an odd environment with faults, compared with the same run opted out in a healthy environment"},
        {"U06", u06, "consented runs against slow, dead, failing servers with stalls, clock jumps, all thread interleavings sampled"},
        {"U07", u07, "runs over generated version files and server answers, also concurrently with downloads, with read faults"},
        {"U08", u08, "runs with odd HOME/TMPDIR, versions, URLs and invalid names; every shell command is parsed"},
        {"U09", u09, "history of 1-3 steps (1-2 programs each) in odd environments with faults and crashes; all files compared before and after"},
        {"P04", p04, "one run with or without update check, or 1-3 file validations, in odd environments with faults; the state of the process compared before and after"},
    };
}
} // namespace sim
