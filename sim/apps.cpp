#include "apps_elem.hpp"
#include "proto.hpp"

#include <sharg/all.hpp>

#include <algorithm>
#include <cfenv>
#include <clocale>
#include <csignal>
#include <cstring>
#include <cxxabi.h>
#include <deque>
#include <fcntl.h>
#include <list>
#include <iomanip>
#include <iostream>
#include <map>
#include <memory>
#include <new>
#include <stdio_ext.h>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>

namespace sim
{

bool release_build()
{
#ifdef NDEBUG
    return true;
#else
    return false;
#endif
}
int sharg_ver(int i)
{
    return i == 0 ? SHARG_VERSION_MAJOR : i == 1 ? SHARG_VERSION_MINOR : SHARG_VERSION_PATCH;
}

namespace
{
std::string type_of(std::exception const & e)
{
    int st;
    char * n = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
    std::string r = n ? n : typeid(e).name();
    free(n);
    return r;
}

void apply_env(body_opts const & o)
{
    ::clearenv();
    for (auto & [k, v] : o.env)
        ::setenv(k.c_str(), v.c_str(), 1);
    if (o.no_sync)
        std::ios::sync_with_stdio(false);
    static char buffer[1 << 16];
    if (o.out_buffer >= 0)
        ::setvbuf(stdout, o.out_buffer < 2 ? nullptr : buffer, o.out_buffer == 0 ? _IONBF : o.out_buffer == 1 ? _IOLBF : _IOFBF, o.out_buffer == 2 ? 64 : o.out_buffer == 3 ? sizeof buffer : 0);
    if (o.out_flags)
        for (std::ostream * s : {&std::cout, &std::cerr, &std::clog})
        {
            s->setf(std::ios::hex, std::ios::basefield);
            s->setf(std::ios::boolalpha | std::ios::showbase | std::ios::showpos | std::ios::uppercase);
            s->setf(std::ios::left, std::ios::adjustfield);
            s->precision(2);
            s->fill('#');
        }
}

// What a callback of the program does besides: run at the n-th call
thread_local std::function<void()> in_callback;
thread_local int in_callback_at{};
} // namespace
void callback()
{
    if (!in_callback || in_callback_at-- > 0)
        return;
    std::function<void()> f;
    f.swap(in_callback);
    f();
}

namespace
{
std::string hex(std::string const & s)
{
    return s;
}

std::string show(elem const & e, cell const & c)
{
    if (e.kind == E_FLAG)
        return c.flag ? "1" : "0";
    char b[64];
    switch (e.type)
    {
    case T_INT: return std::to_string(c.i);
    case T_U8: return std::to_string(c.u8);
    case T_I64: return std::to_string(c.i64);
    case T_DOUBLE: snprintf(b, sizeof b, "%a", c.d); return b;
    case T_BOOL: return c.b ? "true" : "false";
    case T_CHAR: return std::string(1, c.c);
    case T_STRING: return hex(c.s);
    case T_ENUM: return std::to_string((int)c.e);
    case T_PATH: return c.p.string();
    case T_USER: snprintf(b, sizeof b, "%a%c*%d", c.am.value, c.am.unit, c.am.count); return b;
    case T_VINT: { std::string r = "["; for (int x : c.vi) r += std::to_string(x) + ","; return r + "]"; }
    case T_VSTR: { std::string r = "["; for (auto & x : c.vs) r += x + ","; return r + "]"; }
    case T_VENUM: { std::string r = "["; for (auto x : c.ve) r += std::to_string((int)x) + ","; return r + "]"; }
    default: return "?";
    }
}

void add_elem(sharg::parser & p, elem const & e, cell & c)
{
    switch (e.kind)
    {
    case E_SECTION: p.add_section(e.desc, e.adv); return;
    case E_SUBSECTION: p.add_subsection(e.desc, e.adv); return;
    case E_LINE: p.add_line(e.desc, e.hid, e.adv); return;
    case E_ITEM: p.add_list_item(e.lid, e.desc, e.adv); return;
    case E_FLAG: p.add_flag(c.flag, sharg::config{.short_id = e.sid, .long_id = e.lid, .description = e.desc, .advanced = e.adv, .hidden = e.hid}); return;
    default: break;
    }
    switch (e.type)
    {
    case T_INT:
    case T_VINT: add_elem_0(p, e, c); return;
    case T_DOUBLE:
    case T_STRING:
    case T_VSTR: add_elem_1(p, e, c); return;
    case T_U8:
    case T_BOOL:
    case T_CHAR:
    case T_PATH: add_elem_2(p, e, c); return;
    case T_I64:
    case T_ENUM:
    case T_USER:
    case T_VENUM: add_elem_3(p, e, c); return;
    default: return;
    }
}

// Guards phases in which allocations are counted and may fail.
struct alloc_off
{
    bool c = alloc_ctl.counting;
    alloc_off() { alloc_ctl.counting = false; }
    ~alloc_off() { alloc_ctl.counting = c; }
};

// Where the parts of a run report phase changes (marks); null when nested inside other workloads.
struct runner
{
    prog const & pr;
    body_opts const & o;
    bool marks{};
    std::deque<cell> cells, sub_cells;
    std::string outcome;
    bool sub_parsed{};
    std::string sub_name;

    void mark(int m)
    {
        if (marks)
            rpc(PS_MARK, (uint64_t)m);
    }

    void fill_info(sharg::parser & p)
    {
        p.info.version = pr.version;
        p.info.url = pr.url;
        p.info.author = pr.author;
        p.info.citation = pr.citation;
        p.info.short_copyright = pr.short_copyright;
        p.info.long_copyright = pr.long_copyright;
        p.info.date = pr.date;
        p.info.email = pr.email;
        p.info.short_description = pr.short_description;
        p.info.description = pr.description;
        p.info.examples = pr.examples;
        p.info.synopsis = pr.synopsis;
    }

    void describe(sharg::parser & p)
    {
        alloc_off off;
        outcome = "OK";
        describe_elems(p, pr.elems, cells);
        if (sub_parsed)
        {
            outcome += ";sub:" + sub_name;
            describe_elems(p.get_sub_parser(), pr.sub_elems, sub_cells);
        }
    }
    void describe_elems(sharg::parser & p, std::vector<elem> const & es, std::deque<cell> const & cs)
    {
        for (size_t i = 0; i < es.size(); ++i)
        {
            if (es[i].kind > E_POS)
                continue;
            outcome += ";" + std::to_string(i) + "=" + show(es[i], cs[i]);
            if (es[i].kind != E_POS)
            {
                try
                {
                    bool set = es[i].sid ? p.is_option_set(es[i].sid) : p.is_option_set(es[i].lid);
                    outcome += set ? "!" : "";
                }
                catch (sharg::design_error const & e)
                {
                    outcome += "?";
                }
            }
        }
    }

    std::unique_ptr<sharg::parser> pp;
    unsigned moves{};

    void relocate(unsigned when)
    {
        if (!(moves & when) || !pp)
            return;
        std::unique_ptr<sharg::parser> q;
        if (moves & 8)
        {
            q = std::make_unique<sharg::parser>("nobody", std::vector<std::string>{"nobody", "--nothing"});
            *q = std::move(*pp);
        }
        else
            q = std::make_unique<sharg::parser>(std::move(*pp));
        pp = std::move(q);
    }

    void configure()
    {
        for (auto & e : pr.elems)
        {
            cells.emplace_back();
            (void)e;
        }
        for (auto & e : pr.sub_elems)
        {
            sub_cells.emplace_back();
            (void)e;
        }
        std::vector<std::string> args{pr.name};
        args.insert(args.end(), pr.argv.begin(), pr.argv.end());
        mark(1);
        pp = std::make_unique<sharg::parser>(pr.name, args, pr.update_on ? sharg::update_notifications::on : sharg::update_notifications::off,
                                             pr.subcommands);
        relocate(1);
        fill_info(*pp);
        for (size_t i = 0; i < pr.elems.size(); ++i)
            add_elem(*pp, pr.elems[i], cells[i]);
        mistake(*pp);
    }

    std::vector<int> mistake_list;
    std::string mistake_s;
    bool mistake_flag{};
    void mistake(sharg::parser & p)
    {
        auto & s = mistake_s;
        switch (pr.design)
        {
        case D_ID_CHAR: p.add_option(s, sharg::config{.short_id = '$', .long_id = "dollar"}); break;
        case D_ID_SHORT: p.add_option(s, sharg::config{.long_id = "l"}); break;
        case D_ID_DASH: p.add_flag(mistake_flag, sharg::config{.long_id = "-dash"}); break;
        case D_NO_ID: p.add_option(s, sharg::config{.description = "nothing"}); break;
        case D_FLAG_TRUE: mistake_flag = true; p.add_flag(mistake_flag, sharg::config{.long_id = "on-by-default"}); break;
        case D_REQUIRED_DEFAULT: p.add_option(s, sharg::config{.long_id = "must", .default_message = "nothing", .required = true}); break;
        case D_POS_ADVANCED: p.add_positional_option(s, sharg::config{.advanced = true}); break;
        case D_AFTER_LIST:
            p.add_positional_option(mistake_list, sharg::config{});
            p.add_positional_option(s, sharg::config{});
            break;
        case D_ASK_EARLY: p.is_option_set("early"); break;
        default: break;
        }
    }
    void late_mistake(sharg::parser & p)
    {
        switch (pr.design)
        {
        case D_AFTER_PARSE: p.add_option(mistake_s, sharg::config{.long_id = "late"}); break;
        case D_ASK_UNKNOWN: p.is_option_set("unknown"); break;
        case D_TWICE: p.parse(); break;
        default: break;
        }
    }

    void parse()
    {
        relocate(2);
        mark(2);
        try
        {
            pp->parse();
            mark(3);
            if (!pr.subcommands.empty())
            {
                auto & s = pp->get_sub_parser();
                sub_name = s.info.app_name;
                for (size_t i = 0; i < pr.sub_elems.size(); ++i)
                    add_elem(s, pr.sub_elems[i], sub_cells[i]);
                s.parse();
                sub_parsed = true;
            }
            late_mistake(*pp);
            describe(*pp);
        }
        catch (std::exception const & e)
        {
            alloc_off off;
            mark(3);
            outcome = "EX;" + type_of(e) + ";" + e.what();
        }
        catch (int)
        {
            alloc_off off;
            mark(3);
            outcome = "EX;int";
        }
    }

    void finish()
    {
        if (o.work > 0)
        {
            timespec ts{(time_t)(o.work / 1000000000), (long)(o.work % 1000000000)};
            nanosleep(&ts, nullptr);
        }
        if (o.exit_how == 1)
        {
            report("outcome", outcome.data(), outcome.size());
            std::exit(3);
        }
        relocate(4);
        if (o.exit_how == 2)
        {
            static std::unique_ptr<sharg::parser> keep;
            keep = std::move(pp);
            return;
        }
        mark(4);
        pp.reset();
        mark(5);
    }

    // step 0..2, or all
    void steps(int step)
    {
        try
        {
            if (step == 0 || step < 0)
                configure();
            if ((step == 1 || step < 0) && pp)
                parse();
            if ((step == 2 || step < 0) && pp)
                finish();
        }
        catch (std::exception const & e)
        {
            alloc_off off;
            outcome = "EXC;" + type_of(e) + ";" + e.what();
            pp.reset();
        }
        catch (...)
        {
            alloc_off off;
            outcome = "EXC;unknown";
            pp.reset();
        }
    }

    std::string run()
    {
        moves = o.moves;
        steps(-1);
        pp.reset();
        alloc_ctl.counting = false;
        return std::move(outcome);
    }
};
} // namespace

namespace
{
struct dotted : std::numpunct<char>
{
    char do_decimal_point() const override { return ','; }
    char do_thousands_sep() const override { return '.'; }
    std::string do_grouping() const override { return "\3"; }
};
} // namespace

namespace
{
// What a program may have set up and expects to find again.
struct process_state
{
    std::map<std::string, std::string> v;
    std::vector<std::pair<std::string, std::locale>> locales;

    template <typename S>
    void stream(std::string const & n, S & s)
    {
        auto hx = [](auto x) { return std::to_string((unsigned long)x); };
        v[n + " format flags"] = hx(s.flags());
        v[n + " precision"] = hx(s.precision());
        v[n + " width"] = hx(s.width());
        v[n + " fill character"] = hx((unsigned char)s.fill());
        v[n + " exception mask"] = hx(s.exceptions());
        v["@" + n + " buffer"] = hx((uintptr_t)s.rdbuf());
        v["@" + n + " tie"] = hx((uintptr_t)s.tie());
        v[n + " state"] = hx(s.rdstate());
        locales.emplace_back(n + " locale", s.getloc());
    }
    static process_state take()
    {
        process_state r;
        auto & v = r.v;
        char buf[4200]{};
        v["working directory"] = ::getcwd(buf, sizeof buf) ? buf : "?";
        mode_t const m = ::umask(077);
        ::umask(m);
        v["umask"] = std::to_string(m);
        std::string e;
        std::vector<std::string> es;
        for (char ** q = environ; q && *q; ++q)
            es.push_back(*q);
        std::sort(es.begin(), es.end());
        for (auto & x : es)
            e += x + "\n";
        v["environment"] = e;
        v["C locale"] = std::setlocale(LC_ALL, nullptr);
        r.locales.emplace_back("C++ global locale", std::locale());
        r.stream("std::cout", std::cout);
        r.stream("std::cerr", std::cerr);
        r.stream("std::clog", std::clog);
        r.stream("std::cin", std::cin);
        v["@std::terminate handler"] = std::to_string((uintptr_t)std::get_terminate());
        v["@new handler"] = std::to_string((uintptr_t)std::get_new_handler());
        v["rounding mode"] = std::to_string(std::fegetround());
        v["stdout buffering"] = std::to_string(__flbf(stdout)) + std::to_string(__flbf(stderr));
        for (int i = 1; i < 32; ++i)
        {
            struct sigaction a{};
            if (::sigaction(i, nullptr, &a) == 0)
                v["@signal handlers " + std::to_string(i)] = std::to_string((uintptr_t)a.sa_handler) + "," + std::to_string(a.sa_flags);
        }
        sigset_t mask;
        sigemptyset(&mask);
        pthread_sigmask(SIG_BLOCK, nullptr, &mask);
        std::string ms;
        for (int i = 1; i < 32; ++i)
            ms += sigismember(&mask, i) ? '1' : '0';
        v["signal mask"] = ms;
        v["getopt"] = std::to_string(optind) + std::to_string(opterr);
        return r;
    }
    std::string changed(process_state const & o) const
    {
        std::string d;
        for (auto & [k, x] : v)
            if (x != o.v.at(k) && k[0] == '@') // addresses differ from run to run
                d += k.substr(1) + ": another one\n";
            else if (x != o.v.at(k))
                d += k + ": " + x.substr(0, 200) + " -> " + o.v.at(k).substr(0, 200) + "\n";
        for (size_t i = 0; i < locales.size(); ++i)
            if (!(locales[i].second == o.locales[i].second))
                d += locales[i].first + ": another one\n";
        return d;
    }
};

struct state_guard
{
    bool on;
    process_state before;
    state_guard(bool on_) : on{on_}
    {
        if (!on)
            return;
        std::cout.precision(9);
        std::cerr.fill('*');
        std::cout.setf(std::ios::hex, std::ios::basefield);
        std::cerr.setf(std::ios::boolalpha);
        std::srand(12345);
        before = process_state::take();
    }
    void done()
    {
        if (!on)
            return;
        std::string d = before.changed(process_state::take());
        int const next = std::rand();
        std::srand(12345);
        if (next != std::rand())
            d += "std::rand: another sequence\n";
        report("state", d.data(), d.size());
    }
};
} // namespace

// leaves something behind on the stack
__attribute__((noinline)) static void soil_stack(int v)
{
    volatile char a[100000];
    for (auto & x : a)
        x = (char)v;
}

int body_app(prog const & p, body_opts const & o)
{
    apply_env(o);
    if (p.locale || o.locale)
        std::locale::global(std::locale(std::locale(), new dotted));
    if (o.c_locale)
        std::setlocale(LC_ALL, "C.UTF-8");
    if (o.umask >= 0)
        ::umask((mode_t)o.umask);
    if (o.fill >= 0)
    {
        alloc_ctl.fill = (unsigned char)o.fill;
        soil_stack(o.fill);
    }
    for (auto const & q : o.earlier)
    {
        runner r{q, o, false};
        r.run();
        if (o.fill >= 0)
            soil_stack(o.fill);
    }
    state_guard guard{o.state};
    runner r{p, o, true};
    if (o.count_allocs)
    {
        // reported whether parse returns or prints a page and exits
        std::atexit([]
                    {
                        alloc_off off;
                        std::string const t = std::to_string(alloc_ctl.count) + " " + std::to_string(alloc_ctl.failed);
                        report("allocs", t.data(), t.size());
                    });
        alloc_ctl.count = 0;
        alloc_ctl.failed = 0;
        alloc_ctl.fail_at = o.alloc_at;
        alloc_ctl.fail_every = o.alloc_every;
        alloc_ctl.counting = true;
    }
    std::string out;
    std::thread t;
    if (o.in_thread)
        try
        {
            t = std::thread{[&] { out = r.run(); }};
        }
        catch (std::system_error const &)
        {}
    if (t.joinable())
        t.join();
    else
        out = r.run();
    guard.done();
    if (o.read_rest)
    {
        rpc(PS_MARK, 6);
        std::cin.clear();
        std::string const rest{std::istreambuf_iterator<char>{std::cin}, std::istreambuf_iterator<char>{}};
        report("rest", rest.data(), rest.size());
    }
    report("outcome", out.data(), out.size());
    return out.rfind("OK", 0) == 0 ? 0 : 1;
}

int body_many(std::vector<prog> const & ps, many_opts const & m, body_opts const & o)
{
    apply_env(o);
    if (ps[0].locale)
        std::locale::global(std::locale(std::locale(), new dotted));
    std::deque<runner> rs;
    for (size_t i = 0; i < ps.size(); ++i)
    {
        rs.push_back(runner{ps[i], o, false});
        rs.back().moves = m.moves[i];
    }
    alloc_ctl.yields = true;
    auto all = [&](int step)
    {
        std::vector<std::thread> ts;
        for (size_t i = 0; i < ps.size(); ++i)
            ts.emplace_back([&rs, i, step] { rs[i].steps(step); });
        for (auto & t : ts)
            t.join();
    };
    if (m.nested)
    {
        // the callbacks of each parser run the next one
        std::vector<bool> ran(ps.size());
        std::function<void(size_t)> go = [&](size_t i)
        {
            if (i >= ps.size() || ran[i])
                return;
            ran[i] = true;
            auto outer = std::move(in_callback);
            int const outer_at = in_callback_at;
            in_callback = [&go, i] { go(i + 1); };
            in_callback_at = m.nest_at[i];
            rs[i].steps(-1);
            in_callback = std::move(outer);
            in_callback_at = outer_at;
        };
        for (size_t i = 0; i < ps.size(); ++i)
            go(i);
    }
    else if (m.threads && m.handover)
        for (int step = 0; step < 3; ++step)
            all(step);
    else if (m.threads)
        all(-1);
    else if (m.handover) // one after the other, but several parsers exist at the same time
        for (int step = 0; step < 3; ++step)
            for (auto & r : rs)
                r.steps(step);
    else
        for (auto & r : rs)
            r.steps(-1);
    alloc_ctl.yields = false;
    for (size_t i = 0; i < ps.size(); ++i)
        report(("outcome" + std::to_string(i)).c_str(), rs[i].outcome.data(), rs[i].outcome.size());
    return 0;
}

int body_alloc(prog const & p, std::vector<alloc_fault> const & faults, body_opts const & o)
{
    apply_env(o);
    if (p.locale)
        std::locale::global(std::locale(std::locale(), new dotted));
    auto once = [&](bool counting) -> std::string
    {
        runner r{p, o, false};
        alloc_ctl.counting = counting;
        std::string s = r.run();
        alloc_ctl.counting = false;
        return s;
    };
    std::string ref = once(false); // warm up lazily initialised parts of the C++ library
    alloc_ctl.count = 0;
    alloc_ctl.fail_at = 0;
    std::string ref2 = once(true);
    uint64_t const total = alloc_ctl.count;
    report("ref", ref.data(), ref.size());
    report("ref2", ref2.data(), ref2.size());
    std::string tot = std::to_string(total);
    report("total", tot.data(), tot.size());
    std::string res;
    for (auto const & f : faults)
    {
        uint64_t const at = total ? 1 + (f.at - 1) % total : 1;
        std::string().swap(res);
        int64_t const live0 = alloc_ctl.live;
        int64_t live1;
        bool same_ref, ok;
        std::string s2;
        uint64_t nf;
        {
            alloc_ctl.count = 0;
            alloc_ctl.failed = 0;
            alloc_ctl.fail_at = at;
            alloc_ctl.fail_every = f.every;
            std::string s = once(true);
            nf = alloc_ctl.failed;
            alloc_ctl.fail_at = 0;
            alloc_ctl.fail_every = 0;
            ok = s.rfind("OK", 0) == 0;
            same_ref = s == ref;
            s2 = s;
        }
        std::string().swap(res);
        {
            std::string keep = s2;
            std::string().swap(s2);
            size_t extra = keep.capacity() > 15 ? 1 : 0;
            live1 = alloc_ctl.live - (int64_t)extra;
            res = std::to_string(at) + "|" + std::to_string(nf) + "|" + (ok ? "ok" : "ex") + "|" + (same_ref ? "same" : "differs") + "|"
                + std::to_string(live1 - live0) + "|" + keep;
        }
        report("fault", res.data(), res.size());
        std::string again = once(false);
        bool const good = again == ref;
        if (!good)
            report("after", again.data(), again.size());
        report("afterok", good ? "1" : "0", 1);
    }
    report("done", "1", 1);
    return 0;
}

namespace
{
std::string classify(std::exception const & e)
{
    std::string t = type_of(e);
    std::string r = (dynamic_cast<sharg::validation_error const *>(&e) ? "validation_error" : t) + ";" + e.what();
    return r;
}

template <typename V>
std::string check_with(V const & v, file_check const & c, std::string & val)
{
    try
    {
        if (c.via_parser)
        {
            std::filesystem::path out{};
            std::vector<std::filesystem::path> outs{};
            std::vector<std::string> args{"app", "-o", c.path};
            if (c.as_list)
            {
                args.push_back("-o");
                args.push_back(c.path2);
            }
            sharg::parser p{"app", args, sharg::update_notifications::off};
            if (c.as_list)
                p.add_option(outs, sharg::config{.short_id = 'o', .validator = v});
            else
                p.add_option(out, sharg::config{.short_id = 'o', .validator = v});
            p.parse();
            val = c.as_list ? outs.at(0).string() : out.string();
        }
        else if (c.as_list)
        {
            std::vector<std::filesystem::path> ps{c.path, c.path2};
            v(ps);
        }
        else
            v(std::filesystem::path{c.path});
        return "accept";
    }
    catch (std::exception const & e)
    {
        return "reject;" + classify(e);
    }
    catch (...)
    {
        return "reject;unknown";
    }
}

// plain POSIX calls of the application itself (never subject to the library)
bool write_file(std::string const & path, std::string const & data)
{
    int fd = ::open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd < 0)
        return false;
    ssize_t n = ::write(fd, data.data(), data.size());
    ::close(fd);
    return n == (ssize_t)data.size();
}
bool file_has(std::string const & path, std::string const & data)
{
    int fd = ::open(path.c_str(), O_RDONLY);
    if (fd < 0)
        return false;
    char buf[256];
    ssize_t n = ::read(fd, buf, sizeof buf);
    ::close(fd);
    return n == (ssize_t)data.size() && memcmp(buf, data.data(), n) == 0;
}
} // namespace

static void check_files(std::vector<file_check> const & cs, int idx)
{
    std::vector<std::pair<std::string, std::string>> written;
    for (auto const & c : cs)
    {
        std::string r, val;
        rpc(PS_MARK, (uint64_t)(100 + idx));
        switch (c.kind)
        {
        case file_check::in_file:
            r = c.exts.empty() ? check_with(sharg::input_file_validator{}, c, val) : check_with(sharg::input_file_validator{c.exts}, c, val);
            break;
        case file_check::out_file:
            r = check_with(sharg::output_file_validator{c.create_new ? sharg::output_file_open_options::create_new
                                                                    : sharg::output_file_open_options::open_or_create,
                                                        c.exts},
                           c, val);
            break;
        case file_check::in_dir: r = check_with(sharg::input_directory_validator{}, c, val); break;
        case file_check::out_dir: r = check_with(sharg::output_directory_validator{}, c, val); break;
        }
        rpc(PS_MARK, (uint64_t)(200 + idx));
        report(("check" + std::to_string(idx)).c_str(), r.data(), r.size());
        if (r == "accept" && !c.writes.empty())
        {
            if (c.pause)
            {
                timespec ts{(time_t)(c.pause / 1000000000), (long)(c.pause % 1000000000)};
                nanosleep(&ts, nullptr);
            }
            if (c.kind == file_check::out_dir)
                ::mkdir(c.path.c_str(), 0755);
            for (auto const & w : c.writes)
            {
                std::string full = c.kind == file_check::out_dir ? c.path + "/" + w : c.path;
                std::string data = "result of " + w + " by " + std::to_string(getpid());
                if (write_file(full, data))
                    written.emplace_back(full, data);
                else
                    report("writefail", full.data(), full.size());
            }
        }
        if (c.check_results)
        {
            if (c.hold)
            {
                timespec ts{(time_t)(c.hold / 1000000000), (long)(c.hold % 1000000000)};
                nanosleep(&ts, nullptr);
            }
            for (auto & [f, d] : written)
                if (!file_has(f, d))
                    report("lost", f.data(), f.size());
        }
        ++idx;
    }
}

int body_files(std::vector<file_check> const & cs, body_opts const & o)
{
    apply_env(o);
    state_guard guard{o.state};
    check_files(cs, 0);
    guard.done();
    report("done", "1", 1);
    return 0;
}

int body_files_threads(std::vector<std::vector<file_check>> const & cs, body_opts const & o)
{
    apply_env(o);
    std::vector<std::thread> ts;
    for (size_t i = 0; i < cs.size(); ++i)
        ts.emplace_back([&cs, i] { check_files(cs[i], (int)(10 * i)); });
    for (auto & t : ts)
        t.join();
    report("done", "1", 1);
    return 0;
}

int body_guard(std::string const & path, int how, body_opts const & o)
{
    apply_env(o);
    std::string r = "none";
    try
    {
        sharg::detail::safe_filesystem_entry g{path};
        if (how == 1)
            r = g.remove() ? "removed" : "absent";
        else if (how == 2)
            r = g.remove_no_throw() ? "removed" : "absent";
        else if (how == 3)
            r = "all" + std::to_string(g.remove_all());
    }
    catch (std::exception const & e)
    {
        r = "ex;" + type_of(e);
    }
    report("guard", r.data(), r.size());
    return 0;
}
} // namespace sim
