// Independence, allocation failures, help pages: P01 - P03.
#include "harness.hpp"

#include <algorithm>

namespace sim
{
namespace
{
body_opts env_of()
{
    body_opts b;
    b.env["HOME"] = "/home/u";
    b.env["PATH"] = "/usr/bin:/bin";
    return b;
}

void base(world & w)
{
    w.fs.mkdirs("/tmp", 01777, 0);
    w.fs.mkdirs("/home/u/work", 0755, 1000);
    w.fs.at("/home/u")->uid = 1000;
    w.fs.file("/home/u/work/in.txt", "content");
}

process_t & start_many(world & w, std::vector<prog> const & ps, many_opts const & m, std::map<std::string, std::string> const & vars)
{
    proc_opts o;
    o.name = "many";
    o.cwd = "/home/u/work";
    body_opts b = env_of();
    for (auto & [k, v] : vars)
        b.env[k] = v;
    o.body = [ps, m, b] { return body_many(ps, m, b); };
    return w.spawn(std::move(o));
}

// =============================================================================================== P01
void p01(ctx & c)
{
    int const n = 2 + (int)c.ch.g(3);
    std::vector<prog> ps;
    gen_opts g;
    g.special = false;
    g.file_validators = true;
    g.user_validators = c.ch.g(3) == 2;
    bool const same = c.ch.g(3) == 2; // the same specification in every thread, different command lines
    for (int i = 0; i < n; ++i)
    {
        prog p = gen_prog(c, g);
        // parsers that are told to write the same file do influence each other
        for (auto * es : {&p.elems, &p.sub_elems})
            for (auto & e : *es)
                if (e.val == V_OUTFILE || e.val == V_OUTDIR)
                    e.val = e.val == V_OUTFILE ? V_INFILE : V_INDIR;
        if (p.argv.empty())
        {
            // an empty command line prints the short help and ends the process
            p.argv.push_back("surplus");
        }
        if (same && i)
        {
            prog q = ps[0];
            if (c.ch.g(2) && q.argv.size() > 1)
                q.argv.pop_back();
            p = q;
        }
        if (c.ch.g(5) == 4)
        {
            p.update_on = true;
            if (c.ch.g(2))
                p.argv.insert(p.argv.begin(), {"--version-check", c.ch.g(2) ? "1" : "0"});
        }
        c.note("parser " + std::to_string(i) + ": " + show_prog(p));
        c.mixs(show_prog(p));
        ps.push_back(p);
    }
    bool const loc = c.ch.g(6) == 5;
    for (auto & p : ps)
        p.locale = loc;
    auto const vars = odd_vars(c);
    // applications of their own, with stored answers of the server: what they ask and say is their own, too
    bool const distinct = c.ch.g(3) != 2;
    std::vector<std::pair<std::string, std::string>> stored;
    for (size_t i = 0; i < ps.size(); ++i)
        if (ps[i].update_on && distinct)
        {
            ps[i].name += std::to_string(i);
            if (c.ch.g(3))
                stored.emplace_back(ps[i].name, c.ch.of(std::vector<std::string>{"9.9.9\n9.9.9\n", "UNREGISTERED_APP\n1.0.0\n", "0.0.1\n", "9.0.0\n1.0.0\n", "UNREGISTERED_APP\n99.0.0\n"}));
        }
    struct trail
    {
        std::multiset<std::string> requests, said;
        std::set<std::string> files;
        void add(trail const & t)
        {
            requests.insert(t.requests.begin(), t.requests.end());
            said.insert(t.said.begin(), t.said.end());
            files.insert(t.files.begin(), t.files.end());
        }
    };
    auto seed = [&](world & w)
    {
        base(w);
        for (auto & [n, t] : stored)
        {
            w.fs.mkdirs("/home/u/.config/seqan", 0755, 1000);
            w.fs.at("/home/u/.config")->uid = 1000;
            w.fs.put("/home/u/.config/seqan/" + n + ".version", ftype::reg, t, 0644, 1000);
        }
    };
    auto trail_of = [&](world & w, process_t & q)
    {
        trail t;
        for (auto & x : w.commands)
            if (x.is_request)
                t.requests.insert(x.cmd);
        for (auto & x : q.err_events)
            t.said.insert(x.text);
        for (auto & [k, x] : w.fs.snapshot())
            t.files.insert(k);
        return t;
    };
    std::vector<std::string> solo;
    std::vector<trail> trails;
    for (auto const & p : ps)
    {
        world w{c.ch};
        seed(w);
        process_t & q = start_many(w, {p}, {false, false, {0}}, {});
        w.run();
        advance(w, 30 * SEC);
        trails.push_back(trail_of(w, q));
        solo.push_back(q.end == pend::exited && q.has_report("outcome0") ? q.report("outcome0") : "ENDED " + how_ended(q));
        c.absorb(w);
        if (!w.harness_error.empty())
            return;
    }
    // a parser that prints a page ends the whole process: only the others can be combined
    for (size_t i = ps.size(); i-- > 0;)
    {
        if (solo[i].rfind("ENDED exited with status 0", 0) == 0)
        {
            ps.erase(ps.begin() + (long)i);
            solo.erase(solo.begin() + (long)i);
            trails.erase(trails.begin() + (long)i);
        }
        else if (solo[i].rfind("ENDED", 0) == 0)
            c.fail("dies-alone", "parser [" + show_prog(ps[i]) + "] alone: " + solo[i]);
    }
    int const left = (int)ps.size();
    if (left < 2 || c.bad())
        return;
    bool callbacks = false;
    for (size_t i = 0; i + 1 < ps.size(); ++i)
        for (auto & e : ps[i].elems)
            callbacks |= e.val == V_USER;
    for (int mode = 0; mode < (callbacks ? 3 : 2); ++mode)
    {
        bool const threads = mode == 0, nested = mode == 2;
        world w{c.ch};
        w.trace_on = c.trace_on;
        seed(w);
        gen_sched(c, w, false);
        if (threads)
        {
            if (w.sched.policy == sched_policy::run_to_block)
                w.sched.policy = sched_policy::random;
            w.sched.max_yield = c.ch.of(std::vector<uint32_t>{0, 400, 100, 30, 8});
        }
        many_opts m;
        m.threads = threads;
        m.handover = !nested && c.ch.g(3) == 2;
        m.nested = nested;
        for (size_t i = 0; nested && i < ps.size(); ++i)
            m.nest_at.push_back((int)c.ch.g(4));
        std::string how;
        for (size_t i = 0; i < ps.size(); ++i)
        {
            m.moves.push_back(c.ch.g(3) == 2 ? c.ch.g(16) : 0);
            how += " " + std::to_string(m.moves.back());
        }
        c.note(std::string(threads ? "in threads" : nested ? "in callbacks" : "in sequence") + (m.handover ? ", step by step" : "") + ", moves" + how);
        c.mixs(how);
        process_t & q = start_many(w, ps, m, vars);
        w.run();
        if (!w.harness_error.empty())
        {
            c.absorb(w);
            return;
        }
        for (int i = 0; i < left; ++i)
        {
            std::string const got = q.end == pend::exited && q.has_report("outcome" + std::to_string(i)) ? q.report("outcome" + std::to_string(i)) : "ENDED " + how_ended(q);
            if (got != solo[i])
                c.fail(threads ? "threads-differ" : nested ? "nested-differs" : "sequence-differs", "parser " + std::to_string(i) + " [" + show_prog(ps[i]) + "] " + (m.moves[i] & 7 ? "and moved " : "") + (threads ? "beside " : nested ? "in or around callbacks of " : "after ")
                                                                            + std::to_string(left - 1) + " other parsers yields " + quote(got) + ", alone " + quote(solo[i]));
        }
        if (threads)
            c.reach("thread switches inside a process", w.switches);
        if (nested)
            c.reach("parsers inside callbacks of others");
        advance(w, 30 * SEC);
        if (!c.bad())
        {
            trail want;
            for (auto & t : trails)
                want.add(t);
            trail const got = trail_of(w, q);
            auto text = [](auto const & xs)
            {
                std::string r;
                for (auto & x : xs)
                    r += " " + quote(x);
                return r;
            };
            std::string const together = std::string(threads ? "beside" : nested ? "inside" : "after") + " each other " + std::to_string(left) + " parsers [" + [&]
            {
                std::string r;
                for (auto & p : ps)
                    r += " " + show_prog(p) + ";";
                return r;
            }() + "] ";
            if (got.requests != want.requests)
                c.fail("requests-differ", together + "request" + text(got.requests) + ", alone" + text(want.requests));
            if (distinct && got.said != want.said)
                c.fail("messages-differ", together + "say" + text(got.said) + ", alone" + text(want.said));
            if (got.files != want.files)
                c.fail("files-differ", together + "leave" + text(got.files) + ", alone" + text(want.files));
            if (!want.requests.empty())
                c.reach("requests compared");
            if (!want.said.empty())
                c.reach("messages compared");
        }
        c.absorb(w);
    }
    for (auto & s : solo)
        c.reach("outcome " + s.substr(0, 2));
    c.nontrivial = true;
}

// =============================================================================================== P02
// a page is printed while allocations fail
void p02_page(ctx & c)
{
    gen_opts g;
    g.rich = c.ch.g(3) != 0;
    g.special = false;
    g.errors = false;
    g.file_validators = c.ch.g(3) == 2;
    g.simple = true;
    prog p = gen_prog(c, g);
    static std::vector<std::vector<std::string>> const sp{{"--help"}, {"-h"}, {"-hh"}, {"--version"}, {"--copyright"}, {"--export-help", "html"}, {"--export-help=man"}, {}};
    auto const & s = c.ch.of(sp);
    if (s.empty())
        p.argv.clear();
    else if (!p.subcommands.empty() && c.ch.g(2))
        p.argv.insert(p.argv.end(), s.begin(), s.end());
    else
        p.argv.insert(p.argv.begin(), s.begin(), s.end());
    p.update_on = false;
    p.locale = c.ch.g(8) == 7;
    bool const tty = c.ch.g(3) == 2;
    std::string const L = show_prog(p) + (tty ? " on a terminal" : "");
    c.note(L);
    auto go = [&](world & w, uint64_t at, uint64_t every) -> process_t &
    {
        base(w);
        proc_opts o;
        o.name = "page";
        o.cwd = "/home/u/work";
        o.out = tty ? stdkind::tty : stdkind::pipe;
        body_opts b = env_of();
        b.count_allocs = true;
        b.alloc_at = at;
        b.alloc_every = every;
        o.body = [p, b] { return body_app(p, b); };
        process_t & q = w.spawn(std::move(o));
        w.run();
        return q;
    };
    std::string ref, ref_outcome;
    uint64_t total = 0;
    {
        world w{c.ch};
        process_t & q = go(w, 0, 0);
        ref = q.out1;
        ref_outcome = q.report("outcome");
        total = std::strtoull(q.report("allocs").c_str(), nullptr, 10);
        if (q.end != pend::exited)
            c.fail("terminated", L + ": the program " + how_ended(q));
        c.absorb(w);
    }
    if (c.bad() || !total)
        return;
    int const n = 3 + (int)c.ch.g(5);
    for (int i = 0; i < n && !c.bad(); ++i)
    {
        uint64_t const at = 1 + c.ch.g(20000) % total, every = c.ch.of(std::vector<uint64_t>{0, 0, 0, 1, 7});
        world w{c.ch};
        w.trace_on = c.trace_on;
        process_t & q = go(w, at, every);
        std::string const W = L + ": with allocation " + std::to_string(at) + " of " + std::to_string(total) + (every ? " and every " + std::to_string(every) + "th after it" : "") + " failing ";
        std::string const al = q.report("allocs");
        uint64_t const failed = al.find(' ') == std::string::npos ? 0 : std::strtoull(al.c_str() + al.find(' '), nullptr, 10);
        c.stats["fault:allocation failure"] += failed;
        std::string const out = q.report("outcome");
        if (q.end != pend::exited)
            c.fail("terminated", W + "the program " + how_ended(q));
        else if (out.empty() || out == ref_outcome)
        {
            if (q.out1 != ref)
            {
                size_t k = std::mismatch(q.out1.begin(), q.out1.begin() + (long)std::min(q.out1.size(), ref.size()), ref.begin()).first - q.out1.begin();
                k = k > 40 ? k - 40 : 0;
                c.fail("incomplete-page", W + "the program ends as if nothing had happened, but prints " + quote(q.out1.substr(k, 100)) + " instead of " + quote(ref.substr(k, 100)));
            }
            c.reach(failed ? "page complete despite a failed allocation" : "page without failed allocation");
        }
        else
            c.reach("page interrupted by an exception");
        c.mixs(at);
        c.absorb(w);
    }
    c.mixs(L);
    c.nontrivial = true;
}

void p02(ctx & c)
{
    if (c.ch.g(5) == 4)
    {
        p02_page(c);
        return;
    }
    world w{c.ch};
    w.trace_on = c.trace_on;
    base(w);
    gen_sched(c, w, false);
    gen_opts g;
    g.special = false;
    g.user_validators = c.ch.g(2);
    g.file_validators = true;
    prog p = gen_prog(c, g);
    // std::filesystem::directory_iterator of this standard library terminates when it runs out of memory
    for (auto * es : {&p.elems, &p.sub_elems})
        for (auto & e : *es)
            if (e.val == V_INDIR)
                e.val = V_INFILE;
    if (p.argv.empty())
        p.argv.push_back("surplus");
    if (c.ch.g(4) == 3)
    {
        p.update_on = true;
        if (c.ch.g(2))
            p.argv.insert(p.argv.begin(), {"--version-check", "0"});
    }
    p.locale = c.ch.g(8) == 7;
    std::vector<alloc_fault> fs;
    int const n = 4 + (int)c.ch.g(12);
    for (int i = 0; i < n; ++i)
        fs.push_back({1 + c.ch.g(5000), c.ch.of(std::vector<uint64_t>{0, 0, 0, 1, 7})});
    c.note(show_prog(p));
    for (auto & f : fs)
        c.note("allocation " + std::to_string(f.at) + " (modulo their number)" + (f.every ? " and every " + std::to_string(f.every) + "th after it" : "") + " fails");
    proc_opts o;
    o.name = "alloc";
    o.cwd = "/home/u/work";
    body_opts b = env_of();
    o.body = [p, fs, b] { return body_alloc(p, fs, b); };
    auto const before = w.fs.snapshot();
    process_t & q = w.spawn(std::move(o));
    w.run();
    std::string const ref = q.report("ref");
    std::string const L = show_prog(p);
    if (std::string const d = p.update_on ? "" : diff_snap(before, w.fs.snapshot(), false); !d.empty())
        c.fail("files-left", L + ": after failed allocations: " + d);
    if (q.end != pend::exited)
    {
        std::string last;
        for (auto & r : q.reports)
            if (r.first == "fault")
                last = r.second;
        size_t k = 0;
        for (auto & r : q.reports)
            k += r.first == "afterok";
        c.fail("terminated", L + ": the program " + how_ended(q) + " at injected allocation failure number " + std::to_string(k) + (k < fs.size() ? " (allocation " + std::to_string(fs[k].at) + " mod " + q.report("total") + ")" : ""));
    }
    if (q.has_report("ref2") && q.report("ref2") != ref)
        c.fail("second-run-differs", L + ": a second parser in the process yields " + quote(q.report("ref2")) + " instead of " + quote(ref));
    for (auto & [tag, v] : q.reports)
    {
        if (tag == "fault")
        {
            std::vector<std::string> f;
            size_t i = 0;
            for (int k = 0; k < 5; ++k)
            {
                size_t j = v.find('|', i);
                f.push_back(v.substr(i, j - i));
                i = j + 1;
            }
            std::string const text = v.substr(i);
            bool const failed = f[1] != "0";
            std::string const W = L + ": with allocation " + f[0] + " of " + q.report("total") + " failing (" + f[1] + " failures) ";
            if (failed)
            {
                c.stats["fault:allocation failure"] += std::stoull(f[1]);
                c.reach(f[2] == "ok" ? "parse succeeded despite a failed allocation" : text.find("bad_alloc") != std::string::npos ? "bad_alloc surfaced" : "another exception surfaced");
            }
            if (f[2] == "ok" && f[3] != "same")
                c.fail("wrong-values", W + "parsing succeeded with " + quote(text) + " instead of " + quote(ref));
            if (!failed && f[3] != "same")
                c.fail("not-repeatable", W + "result " + quote(text) + " instead of " + quote(ref));
            if (f[4] != "0" && !p.update_on)
                c.fail("leak", W + f[4] + " blocks of memory leaked; outcome " + quote(text));
            c.mixs(f[0]);
        }
        if (tag == "afterok" && v == "0")
            c.fail("not-recovered", L + ": after an allocation failure a new parser yields " + quote(q.report("after")) + " instead of " + quote(ref));
    }
    c.mixs(L);
    c.nontrivial = q.has_report("fault");
    advance(w, 30 * SEC);
    c.absorb(w);
}

// =============================================================================================== P03
std::string strip(std::string const & s, bool & had)
{
    std::string r;
    for (size_t i = 0; i < s.size(); ++i)
    {
        if (s[i] == '\033')
        {
            had = true;
            if (i + 1 < s.size() && s[i + 1] == '[')
            {
                i += 2;
                while (i < s.size() && !isalpha((unsigned char)s[i]))
                    ++i;
            }
        }
        else
            r += s[i];
    }
    return r;
}
std::string words_of(std::string const & s)
{
    std::string r;
    bool sp = true;
    for (char ch : s)
    {
        bool w = isspace((unsigned char)ch);
        if (w && !sp)
            r += ' ';
        if (!w)
            r += ch;
        sp = w;
    }
    while (!r.empty() && r.back() == ' ')
        r.pop_back();
    return r;
}

// without trailing spaces, and only up to the meta information
std::string trimmed(std::string s)
{
    for (auto const * h : {"\nVERSION\n", "\nURL\n", "\nLEGAL\n"})
    {
        size_t k = s.find(h);
        if (k != std::string::npos)
            s.resize(k);
    }
    std::string r;
    for (char ch : s)
    {
        if (ch == '\n')
            while (!r.empty() && r.back() == ' ')
                r.pop_back();
        r += ch;
    }
    return r;
}

struct page
{
    bool tty{};
    std::vector<int> widths;
    fault_plan fp;
    std::map<std::string, std::string> vars;
    stdkind in{stdkind::pipe}, err{stdkind::pipe};
    bool locale{};
    bool no_sync{}, flags{};
    int buffer{-1};
};

process_t & start_page(world & w, prog const & p, page const & q)
{
    proc_opts o;
    o.name = "page";
    o.cwd = "/home/u/work";
    o.out = q.tty ? stdkind::tty : stdkind::pipe;
    o.in = q.in;
    o.err = q.err;
    o.widths = q.widths;
    o.fp = q.fp;
    body_opts b = env_of();
    for (auto & [k, v] : q.vars)
        b.env[k] = v;
    b.env["SHARG_NO_VERSION_CHECK"] = "1";
    b.locale = q.locale;
    b.no_sync = q.no_sync;
    b.out_flags = q.flags;
    b.out_buffer = q.buffer;
    o.body = [p, b] { return body_app(p, b); };
    return w.spawn(std::move(o));
}

void p03(ctx & c)
{
    gen_opts g;
    g.rich = true;
    g.special = false;
    g.errors = false;
    g.file_validators = c.ch.g(3) == 2;
    g.simple = true;
    prog p = gen_prog(c, g);
    static std::vector<std::vector<std::string>> const sp{{"--help"}, {"-h"}, {"-hh"}, {"--advanced-help"}, {"--version"}, {"--copyright"}, {"--export-help", "html"}, {"--export-help=man"}, {}};
    auto const & s = c.ch.of(sp);
    bool const exported = !s.empty() && s[0].rfind("--export", 0) == 0;
    bool const wrapped = s.empty() || s[0].find("help") != std::string::npos || s[0][1] == 'h';
    if (s.empty() && p.subcommands.empty())
        p.argv.clear();
    else if (s.empty())
        p.argv = {"--help"};
    else if (!p.subcommands.empty() && c.ch.g(2))
        p.argv.insert(p.argv.end(), s.begin(), s.end()); // help of the subcommand
    else
        p.argv.insert(p.argv.begin(), s.begin(), s.end());
    p.update_on = c.ch.g(2);
    // keep terms of list items short: they are headings, not wrapped text
    for (auto * es : {&p.elems, &p.sub_elems})
        for (auto & e : *es)
            if (e.kind == E_ITEM)
                e.lid = "term";
    c.note(show_prog(p));

    std::vector<page> pages;
    pages.push_back({false, {}, {}, {}});
    pages.push_back({true, {80}, {}, {}});
    static std::vector<int> const ws{0, 1, 20, 39, 40, 41, 42, 60, 79, 81, 100, 119, 120, 121, 200, 1000, 65535, -1};
    int const n = 2 + (int)c.ch.g(3);
    for (int i = 0; i < n; ++i)
    {
        page q;
        q.tty = c.ch.g(3) != 2;
        int m = 1 + (int)c.ch.g(3);
        for (int k = 0; k < m; ++k)
            q.widths.push_back(c.ch.g(3) == 2 ? 1 + (int)c.ch.g(200) : c.ch.of(ws));
        if (c.ch.g(3) == 2)
        {
            q.fp.classes = c.ch.of(std::vector<unsigned>{FC_SHORT, FC_IOCTL, FC_SHORT | FC_IOCTL});
            q.fp.num = c.ch.of(std::vector<uint32_t>{100, 500, 900});
            q.fp.max = 500;
        }
        q.vars = odd_vars(c);
        q.locale = c.ch.g(4) == 3;
        q.no_sync = c.ch.g(5) == 4;
        q.flags = c.ch.g(4) == 3;
        q.buffer = c.ch.g(5) == 4 ? (int)c.ch.g(4) : -1;
        q.in = c.ch.g(2) ? stdkind::tty : stdkind::pipe;
        q.err = c.ch.g(2) ? stdkind::tty : stdkind::pipe;
        pages.push_back(q);
    }
    std::string ref, ref_words, ref80;
    for (size_t i = 0; i < pages.size(); ++i)
    {
        page & q = pages[i];
        world w{c.ch};
        w.trace_on = c.trace_on;
        base(w);
        if (i > 1 && c.ch.g(4) == 3)
        {
            w.sched.stall_num = 1;
            w.sched.stall_den = 10;
        }
        process_t & pr = start_page(w, p, q);
        w.run();
        c.absorb(w);
        if (!w.harness_error.empty())
            return;
        std::string L = show_prog(p) + " on a " + (q.tty ? "terminal of width" : "pipe");
        for (int x : q.widths)
            L += " " + std::to_string(x);
        L += std::string(", stdin=") + (q.in == stdkind::tty ? "tty" : "pipe") + " stderr=" + (q.err == stdkind::tty ? "tty" : "pipe") + show_vars(q.vars) + (q.locale ? " locale with 1.234,5" : "")
           + (q.no_sync ? " without sync_with_stdio" : "") + (q.flags ? " with flags of the program" : "") + (q.buffer >= 0 ? " buffer " + std::to_string(q.buffer) : "");
        for (auto & x : pr.failures)
            if (L.size() < 1500)
                L += "; " + x;
        c.note(L.substr(L.find(" on a ")));
        if (i == 0 && pr.end == pend::exited && pr.has_report("outcome"))
        {
            c.reach("not a page");
            return;
        }
        if (pr.end != pend::exited || pr.exit_code != 0)
        {
            c.fail("exit", L + ": the program " + how_ended(pr) + "; outcome " + quote(pr.report("outcome")));
            return;
        }
        if (p.subcommands.empty() && !w.fevents.empty())
            c.fail("page-touches-files", L + ": " + w.fevents[0].op + " " + quote(w.fevents[0].path));
        bool esc = false;
        std::string const text = strip(pr.out1, esc);
        std::string const wd = words_of(text);
        bool const ioctl_fault = q.fp.classes & FC_IOCTL;
        if (i == 0)
        {
            ref = pr.out1;
            ref_words = wd;
            if (esc)
                c.fail("escapes-in-pipe", L + ": escape sequences on a pipe");
            if (ref.empty())
                c.fail("empty", L + ": nothing is printed");
            continue;
        }
        if (wd != ref_words)
        {
            size_t k = 0;
            while (k < wd.size() && k < ref_words.size() && wd[k] == ref_words[k])
                ++k;
            k = k > 30 ? k - 30 : 0;
            c.fail("words-differ", L + ": the words are " + quote(wd.substr(k, 120)) + " where a pipe gets " + quote(ref_words.substr(k, 120)));
        }
        if (!q.tty)
        {
            if (pr.out1 != ref)
                c.fail(esc ? "escapes-in-pipe" : "pipe-bytes", L + ": the bytes differ from the undisturbed page");
        }
        else if (i == 1)
        {
            // up to the sections with bold key words, whose escape sequences count as columns
            std::string const x = trimmed(text), y = trimmed(ref);
            if (x != y)
            {
                size_t k = std::mismatch(x.begin(), x.begin() + (long)std::min(x.size(), y.size()), y.begin()).first - x.begin();
                k = k > 30 ? k - 30 : 0;
                c.fail("not-80", L + ": a terminal of 80 columns shows " + quote(x.substr(k, 80)) + " where a pipe gets " + quote(y.substr(k, 80)));
            }
        }
        if (exported && pr.out1 != ref)
            c.fail("export-differs", L + ": the exported page depends on the terminal");
        if (q.tty && wrapped && !exported)
        {
            // widest width the program may have used
            int mx = 0;
            std::vector<int> all = q.widths;
            for (int x : all)
                mx = std::max(mx, x <= 0 ? 80 : std::clamp(x, 40, 120));
            if (ioctl_fault)
                mx = std::max(mx, 80);
            size_t b = 0;
            bool in_wrapped = false;
            while (b < text.size())
            {
                size_t e = text.find('\n', b);
                if (e == std::string::npos)
                    e = text.size();
                std::string line = text.substr(b, e - b);
                b = e + 1;
                size_t ind = line.find_first_not_of(' ');
                if (ind == std::string::npos || ind < 4)
                    continue;
                std::string rest = line.substr(ind);
                bool const term = rest[0] == '-' || rest.rfind("ARGUMENT-", 0) == 0 || rest.rfind("term", 0) == 0;
                if (term)
                    continue;
                in_wrapped = true;
                if ((int)line.size() > mx && rest.find(' ') != std::string::npos)
                    c.fail("too-wide", L + ": the line " + quote(line) + " has " + std::to_string(line.size()) + " columns, the terminal " + std::to_string(mx));
            }
            if (in_wrapped)
                c.reach("wrapped page judged");
        }
        for (int x : q.widths)
            c.mixs((uint64_t)x);
    }
    c.mixs(show_prog(p));
    c.mixs(ref);
    c.nontrivial = true;
}
// =============================================================================================== P05
// the same command line in other circumstances
void p05(ctx & c)
{
    gen_opts g;
    g.special = c.ch.g(3) == 2;
    g.simple = c.ch.g(3) == 0;
    g.errors = !g.simple;
    g.user_validators = c.ch.g(6) == 5;
    prog p = gen_prog(c, g);
    if (p.argv.empty() && !g.special)
        p.argv.push_back("surplus");
    p.update_on = c.ch.g(2);
    std::vector<std::string> own_vars; // such as programs like to read
    for (auto * es : {&p.elems, &p.sub_elems})
        for (auto & e : *es)
            if (!e.lid.empty())
            {
                std::string n;
                for (char x : e.lid)
                    n += isalnum((unsigned char)x) ? (char)toupper(x) : '_';
                std::string a;
                for (char x : p.name)
                    a += isalnum((unsigned char)x) ? (char)toupper(x) : '_';
                for (auto const & v : {n, a + "_" + n, "SHARG_" + n, "OMP_" + n})
                    own_vars.push_back(v);
            }
    if (p.update_on && c.ch.g(3) == 0)
        p.argv.insert(p.argv.begin(), {"--version-check", c.ch.g(2) ? "0" : "2"});
    struct setting
    {
        std::map<std::string, std::string> vars;
        stdkind in{stdkind::pipe}, out{stdkind::pipe}, err{stdkind::pipe};
        std::string cwd{"/home/u/work"};
        std::vector<int> widths;
        fault_plan fp;
        int64_t delay{};
        body_opts b;
    };
    auto go = [&](world & w, setting const & q) -> process_t &
    {
        base(w);
        w.fs.mkdirs("/home/u/gone", 0755, 1000);
        proc_opts o;
        o.name = p.name;
        o.cwd = q.cwd;
        o.in = q.in;
        o.out = q.out;
        o.err = q.err;
        o.widths = q.widths;
        o.fp = q.fp;
        o.start_delay = q.delay;
        body_opts b = q.b;
        b.env = {{"PATH", "/usr/bin:/bin"}};
        if (q.vars.count("HOME") == 0)
            b.env["HOME"] = "/home/u";
        for (auto & [k, v] : q.vars)
            b.env[k] = v;
        b.env["SHARG_NO_VERSION_CHECK"] = "1";
        prog const pp = p;
        o.body = [pp, b] { return body_app(pp, b); };
        process_t & r = w.spawn(std::move(o));
        w.run();
        return r;
    };
    std::string const L = show_prog(p);
    c.note(L);
    std::string outcome, out, err;
    int code = 0;
    int const n = 2 + (int)c.ch.g(3);
    for (int i = 0; i <= n && !c.bad(); ++i)
    {
        setting q;
        std::string how;
        if (i > 0)
        {
            q.vars = odd_vars(c);
            if (!own_vars.empty() && c.ch.g(4) == 3)
                q.vars[c.ch.of(own_vars)] = c.ch.of(std::vector<std::string>{"7", "alpha", "1", "red", ""});
            how += show_vars(q.vars);
            static std::vector<int> const fills{0, 1, 0x20, 0x7f, 0xff, 0x5a, 0xcd};
            q.b.fill = c.ch.of(fills);
            how += " memory=" + std::to_string(q.b.fill);
            if (c.ch.g(3) == 1)
            {
                q.b.locale = true;
                how += " locale with 1.234,5";
            }
            if (c.ch.g(5) == 4)
            {
                unsigned const k = c.ch.g(7) + 1;
                q.b.no_sync = k & 1;
                q.b.out_flags = k & 2;
                if (k & 4)
                    q.b.out_buffer = (int)c.ch.g(4);
                how += " streams=" + std::to_string(k) + (k & 4 ? "/" + std::to_string(q.b.out_buffer) : "");
            }
            if (c.ch.g(6) == 5)
            {
                q.b.c_locale = true;
                how += " setlocale";
            }
            if (c.ch.g(6) == 5)
            {
                q.b.umask = c.ch.of(std::vector<int>{0, 077, 0777});
                how += " umask=" + std::to_string(q.b.umask);
            }
            if (c.ch.g(4) == 3)
            {
                q.cwd = c.ch.of(std::vector<std::string>{"/", "/tmp", "/home/u"});
                how += " cwd=" + q.cwd;
            }
            auto kind = [&](char const * name)
            {
                stdkind const k = c.ch.of(std::vector<stdkind>{stdkind::pipe, stdkind::tty, stdkind::tty, stdkind::closed});
                how += std::string(" ") + name + (k == stdkind::pipe ? "=pipe" : k == stdkind::tty ? "=tty" : " closed");
                return k;
            };
            if (c.ch.g(2))
            {
                q.in = kind("stdin");
                q.out = kind("stdout");
                q.err = kind("stderr");
                q.widths = {1 + (int)c.ch.g(200)};
            }
            if (c.ch.g(4) == 3)
            {
                q.delay = c.ch.of(std::vector<int64_t>{SEC, DAY, 400 * DAY, 20000 * DAY});
                how += " later";
            }
            if (c.ch.g(5) == 4)
            {
                q.b.in_thread = true;
                how += " in a thread";
            }
            if (c.ch.g(5) == 4)
            {
                q.b.moves = c.ch.g(16);
                how += " moves=" + std::to_string(q.b.moves);
            }
            if (c.ch.g(4) == 3)
            {
                gen_opts ge;
                ge.special = ge.subcommands = false;
                ge.errors = c.ch.g(2);
                ge.simple = !ge.errors;
                for (int k = 1 + (int)c.ch.g(3); k > 0; --k)
                {
                    prog e = gen_prog(c, ge);
                    if (e.argv.empty())
                        e.argv.push_back("surplus");
                    q.b.earlier.push_back(e);
                    how += " after [" + show_prog(e) + "]";
                }
            }
            if (c.ch.g(5) == 4)
            {
                q.fp.classes = c.ch.of(std::vector<unsigned>{FC_IOCTL, FC_SHORT, FC_FS, FC_FS | FC_IOCTL | FC_SHORT});
                q.fp.num = c.ch.of(std::vector<uint32_t>{100, 500, 1000});
                q.fp.max = 500;
                how += " failing system calls";
            }
        }
        world w{c.ch};
        w.trace_on = c.trace_on;
        process_t & r = go(w, q);
        c.absorb(w);
        if (!w.harness_error.empty())
            return;
        c.note("setting" + how);
        std::string const o = r.report("outcome");
        bool esc = false;
        std::string const text = words_of(strip(r.out1, esc)), etext = words_of(strip(r.out2, esc));
        if (i == 0)
        {
            outcome = o;
            out = text;
            err = etext;
            code = r.exit_code;
            if (r.end != pend::exited)
                c.fail("terminated", L + ": the program " + how_ended(r));
            continue;
        }
        if (r.end != pend::exited)
            c.fail("terminated", L + " in the setting" + how + ": the program " + how_ended(r));
        else if (o != outcome)
            c.fail("outcome-differs", L + " in the setting" + how + " yields " + quote(o) + " instead of " + quote(outcome));
        else if (q.out != stdkind::closed && text != out)
            c.fail("output-differs", L + " in the setting" + how + " prints " + quote(text) + " instead of " + quote(out));
        else if (q.err != stdkind::closed && etext != err)
            c.fail("messages-differ", L + " in the setting" + how + " prints " + quote(etext) + " on standard error instead of " + quote(err));
        else if (q.out != stdkind::closed && r.exit_code != code)
            c.fail("status-differs", L + " in the setting" + how + " ends with status " + std::to_string(r.exit_code) + " instead of " + std::to_string(code));
        c.mixs(how);
    }
    c.reach("outcome " + outcome.substr(0, outcome.rfind("EX", 0) == 0 ? outcome.find(';', 3) : 2));
    c.mixs(L);
    c.nontrivial = true;
}

// =============================================================================================== P06
// standard output fails while a page is printed
void p06(ctx & c)
{
    gen_opts g;
    g.rich = c.ch.g(3) != 0;
    g.special = false;
    g.errors = false;
    g.file_validators = c.ch.g(3) == 2;
    g.simple = true;
    prog p = gen_prog(c, g);
    static std::vector<std::vector<std::string>> const sp{{"--help"}, {"-h"}, {"-hh"}, {"--advanced-help"}, {"--version"}, {"--copyright"}, {"--export-help", "html"}, {"--export-help=man"}, {}};
    auto const & s = c.ch.of(sp);
    if (s.empty())
        p.argv.clear();
    else if (!p.subcommands.empty() && c.ch.g(2))
        p.argv.insert(p.argv.end(), s.begin(), s.end());
    else
        p.argv.insert(p.argv.begin(), s.begin(), s.end());
    p.update_on = c.ch.g(2);
    p.locale = c.ch.g(8) == 7;
    bool const tty = c.ch.g(3) == 2, tty_err = c.ch.g(3) == 2, in_thread = c.ch.g(6) == 5;
    bool const no_sync = c.ch.g(4) == 3;
    if (no_sync && c.ch.g(2)) // longer than the buffers
        for (int i = 0, n = 60 + (int)c.ch.g(400); i < n; ++i)
            p.description.push_back(std::string(1 + c.ch.g(30), 'w') + (i % 3 ? " words that fill the page" : ""));
    int const out_buffer = c.ch.g(3) == 2 ? (int)c.ch.g(4) : -1;
    std::string const L = show_prog(p) + (tty ? " on a terminal" : "") + (no_sync ? " without sync_with_stdio" : "") + (out_buffer >= 0 ? " buffer " + std::to_string(out_buffer) : "");
    c.note(L);
    auto go = [&](world & w, fault_plan const & fp, bool closed) -> process_t &
    {
        base(w);
        w.fs.mkdirs("/home/u/.config/seqan", 0755, 1000);
        proc_opts o;
        o.name = "page";
        o.cwd = "/home/u/work";
        o.out = closed ? stdkind::closed : tty ? stdkind::tty : stdkind::pipe;
        o.err = tty_err ? stdkind::tty : stdkind::pipe;
        o.widths = {80};
        o.fp = fp;
        body_opts b = env_of();
        b.env["SHARG_NO_VERSION_CHECK"] = "1";
        b.in_thread = in_thread;
        b.no_sync = no_sync;
        b.out_buffer = out_buffer;
        o.body = [p, b] { return body_app(p, b); };
        process_t & q = w.spawn(std::move(o));
        w.run();
        return q;
    };
    std::string ref;
    {
        world w{c.ch};
        process_t & q = go(w, {}, false);
        ref = q.out1;
        if (q.end != pend::exited || q.exit_code != 0)
        {
            if (!q.has_report("outcome"))
                c.fail("page-status", L + ": the program " + how_ended(q) + " although nothing failed");
            c.absorb(w);
            c.reach("not a page");
            return;
        }
        c.absorb(w);
        if (q.has_report("outcome"))
            return;
    }
    int const n = 2 + (int)c.ch.g(4);
    for (int i = 0; i < n && !c.bad(); ++i)
    {
        fault_plan fp;
        bool const closed = c.ch.g(10) == 9;
        fp.classes = c.ch.of(std::vector<unsigned>{FC_STDIO, FC_STDIO, FC_STDIO | FC_SHORT, FC_SHORT, FC_CLOSE | FC_STAT | FC_STDIO});
        if (c.ch.g(2))
            fp.at = (int)c.ch.g(c.ch.g(2) ? 6 : 40);
        fp.num = c.ch.of(std::vector<uint32_t>{20, 200, 700});
        fp.max = c.ch.of(std::vector<unsigned>{1, 1, 3, 1000});
        if (fp.at >= 0 && c.ch.g(2))
            fp.num = 0;
        world w{c.ch};
        w.trace_on = c.trace_on;
        process_t & q = go(w, fp, closed);
        c.absorb(w);
        if (!w.harness_error.empty())
            return;
        std::string W = L + (closed ? " with closed standard output" : "");
        bool failed = closed, other = false; // a file validator of the main command may see another failure
        for (auto & x : q.failures)
        {
            failed |= x.rfind("write(stdout)", 0) == 0;
            other |= x.find("write(std") == std::string::npos;
            if (W.size() < 1500)
                W += "; " + x;
        }
        bool const ok = q.end == pend::exited && q.exit_code == 0;
        bool const same = q.out1 == ref;
        if (ok && !same)
        {
            size_t k = std::mismatch(q.out1.begin(), q.out1.begin() + (long)std::min(q.out1.size(), ref.size()), ref.begin()).first - q.out1.begin();
            size_t const b = k > 40 ? k - 40 : 0;
            c.fail("incomplete-page", W + ": the program ends with status 0, but from byte " + std::to_string(k) + " of " + std::to_string(ref.size()) + " on prints "
                   + quote(q.out1.substr(b, 100)) + " instead of " + quote(ref.substr(b, 100)));
        }
        else if (!failed && !other && !ok)
            c.fail("page-status", W + ": the page is printed without an error, but the program " + how_ended(q));
        else if (q.end != pend::exited)
            c.fail("terminated", W + ": the program " + how_ended(q));
        c.reach(!failed ? "standard output worked" : same ? "complete page, failing writes" : "incomplete page reported");
        c.mixs(W);
    }
    c.mixs(L);
    c.nontrivial = true;
}
} // namespace

std::vector<scenario> p_scenarios()
{
    return {
        {"P01", p01, "2-4 generated parsers, each alone in a fresh process, all in threads (allocation yield points), all in sequence, inside each other's callbacks"},
        {"P02", p02, "one generated parser or page run with 3-15 injected allocation failure positions and failing user validators in one process"},
        {"P03", p03, "one generated help/version/copyright/export page on a pipe, an 80-column terminal and 2-4 other terminals or pipes with changing widths, failing ioctl, short and slow writes"},
        {"P05", p05, "one generated parser in the default setting and in 2-4 other settings (environment, locale, memory contents, streams, directory, time, threads, moves, earlier parsers, failing calls)"},
        {"P06", p06, "one generated page, printed undisturbed and 2-5 times while writes to standard output fail, are cut short or standard output is closed"},
    };
}
} // namespace sim
