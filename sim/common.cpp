#include "harness.hpp"

#include <algorithm>

namespace sim
{
std::string quote(std::string const & s)
{
    std::string r = "\"";
    for (unsigned char c : s)
    {
        char b[8];
        if (c == '"' || c == '\\')
            (r += '\\') += (char)c;
        else if (c == '\n')
            r += "\\n";
        else if (c < 32 || c == 127)
        {
            snprintf(b, sizeof b, "\\x%02x", c);
            r += b;
        }
        else
            r += (char)c;
        if (r.size() > 400)
        {
            r += "...";
            break;
        }
    }
    return r + "\"";
}

char const * end_name(pend e)
{
    switch (e)
    {
    case pend::running: return "still running";
    case pend::exited: return "exited";
    case pend::crashed: return "terminated by a signal";
    case pend::killed: return "killed by the simulator";
    case pend::aborted: return "aborted";
    default: return "hung";
    }
}

bool ended_ok(process_t const & p) { return p.end == pend::exited; }

std::string how_ended(process_t const & p)
{
    std::string s = end_name(p.end);
    if (p.end == pend::exited)
        s += " with status " + std::to_string(p.exit_code);
    if (p.signal_)
        s += " (signal " + std::to_string(p.signal_) + ")";
    if (!p.abort_msg.empty())
        s += " (" + p.abort_msg + ")";
    return s;
}

void gen_sched(ctx & c, world & w, bool stalls)
{
    static std::vector<uint32_t> const den{2, 3, 8, 30};
    switch (c.ch.g(4))
    {
    case 0: w.sched.policy = sched_policy::run_to_block; break;
    case 1: w.sched.policy = sched_policy::pct; break;
    default:
        w.sched.policy = sched_policy::random;
        w.sched.switch_num = 1;
        w.sched.switch_den = c.ch.of(den);
    }
    if (stalls && c.ch.g(3) == 1)
    {
        w.sched.stall_num = 1;
        w.sched.stall_den = c.ch.of(std::vector<uint32_t>{300, 60, 15});
    }
}

void advance(world & w, int64_t delta)
{
    int64_t const target = w.now + delta;
    w.drain(delta);
    w.now = std::max(w.now, target);
}

std::string diff_snap(vfs::snap const & a, vfs::snap const & b, bool ignore_new_dirs)
{
    std::string r;
    auto add = [&](std::string s)
    {
        if (r.size() < 600)
            r += (r.empty() ? "" : "; ") + s;
    };
    for (auto & [k, e] : a)
    {
        auto it = b.find(k);
        if (it == b.end())
            add(std::string(type_name(e.type)) + " " + quote(k) + " was removed");
        else if (!e.same(it->second))
        {
            if (it->second.type != e.type)
                add(quote(k) + " was a " + type_name(e.type) + " and is now a " + type_name(it->second.type));
            else if (it->second.data != e.data)
                add("content of " + quote(k) + " changed from " + quote(e.data.substr(0, 60)) + " to " + quote(it->second.data.substr(0, 60)));
            else
                add("permissions or owner of " + quote(k) + " changed");
        }
    }
    for (auto & [k, e] : b)
        if (!a.count(k) && !(ignore_new_dirs && e.type == ftype::dir))
            add(std::string(type_name(e.type)) + " " + quote(k) + " was created");
    return r;
}

// ---- programs ----
static std::vector<std::string> const long_names{"alpha", "beta", "num-threads", "out", "verbose", "x1", "mode", "list_of", "ratio", "q-q"};
static std::string const words[] = {"lorem", "ipsum", "threshold", "a", "file", "supercalifragilisticexpialidocious", "of", "the", "number", "\\fIcursive\\fP",
                                    "\\fBbold\\fP", "x", "with,punctuation;", "<tag>", "&amp", "12", "option's", "end.", "C:\\"};

// rich texts are not empty: a text that follows an entry without description shares its line
static std::string text(ctx & c, int maxw, bool nonempty = false)
{
    int n = nonempty ? 1 + (int)c.ch.g(maxw) : (int)c.ch.g(maxw + 1);
    std::string s;
    for (int i = 0; i < n; ++i)
        s += (i ? " " : "") + words[c.ch.g(std::size(words))];
    return s;
}

static std::string value_for(ctx & c, elem const & e, bool good)
{
    auto bad = [&]() -> std::string
    {
        static std::vector<std::string> const b{"", "abc", "99999999999999999999", "-", "1.5.2", "3x", " 4", "purple", "--", "\xff", "-7q", "1e999", "trueish", "17", "12345", "0.125", "1.5k", "1,5k"};
        return c.ch.of(b);
    };
    if (!good && e.val == V_LIST && c.ch.g(2))
        return e.type == T_USER ? "17x" : e.type == T_ENUM ? "black" : "17";
    if (!good)
        return bad();
    switch (e.type)
    {
    case T_INT:
    case T_VINT:
        if (e.val == V_LIST)
            return c.ch.of(std::vector<std::string>{"1", "2", "42", "1000000"});
        return c.ch.of(std::vector<std::string>{"5", "0", "42", "100", "-10", "99"});
    case T_U8: return c.ch.of(std::vector<std::string>{"0", "255", "17"});
    case T_I64: return c.ch.of(std::vector<std::string>{"9223372036854775807", "-5", "3"});
    case T_DOUBLE: return c.ch.of(std::vector<std::string>{"0.25", "2.5", "-1", "1e-3"});
    case T_BOOL: return c.ch.of(std::vector<std::string>{"true", "false", "1", "0"});
    case T_CHAR: return c.ch.of(std::vector<std::string>{"65", "7"});
    case T_STRING:
        if (e.val == V_LIST || e.val == V_CHAIN)
            return c.ch.of(std::vector<std::string>{"alpha", "beta"});
        if (e.val == V_REGEX)
            return c.ch.of(std::vector<std::string>{"alpha", "zzz"});
        return c.ch.of(std::vector<std::string>{"word", "two words", "x=y", "a,b", "~/x", "$HOME", "@in.txt", "%d{USER}", "a rather long string value that does not fit into any small buffer"});
    case T_VSTR:
        if (e.val == V_REGEX)
            return c.ch.of(std::vector<std::string>{"alpha", "zzz"});
        return c.ch.of(std::vector<std::string>{"word", "two words", "a rather long string value that does not fit into any small buffer"});
    case T_ENUM:
    case T_VENUM: return c.ch.of(std::vector<std::string>{"red", "green", "blue"});
    case T_USER:
        if (e.val == V_LIST)
            return c.ch.of(std::vector<std::string>{"0.5k", "2m", "1234.5k"});
        return c.ch.of(std::vector<std::string>{"0.25k", "3m", "1000000x", "1e3k", "3m*10", "0.5k*1000000"});
    case T_PATH:
        if (e.val == V_OUTFILE)
            return c.ch.of(std::vector<std::string>{"new.txt", "/home/u/work/o.fa", "in.txt", "missing/x.txt", "new.doc"});
        if (e.val == V_INDIR || e.val == V_OUTDIR)
            return c.ch.of(std::vector<std::string>{".", "/home/u/work", "newdir", "in.txt"});
        return c.ch.of(std::vector<std::string>{"/home/u/work/in.txt", "rel/path", "x", "~/x", "./x", "a b/$HOME"});
    default: return "1";
    }
}

static std::vector<elem> gen_elems(ctx & c, gen_opts const & o, bool pos, bool rich)
{
    std::vector<elem> r;
    auto pick_validator = [&](elem & e)
    {
        switch (e.type)
        {
        case T_INT: e.val = c.ch.of(std::vector<int>{V_NONE, V_RANGE, V_LIST}); break;
        case T_DOUBLE:
        case T_VINT: e.val = c.ch.of(std::vector<int>{V_NONE, V_RANGE}); break;
        case T_STRING: e.val = c.ch.of(std::vector<int>{V_NONE, V_LIST, V_REGEX, V_CHAIN}); break;
        case T_USER:
        case T_ENUM: e.val = c.ch.of(std::vector<int>{V_NONE, V_LIST}); break;
        case T_VSTR: e.val = c.ch.of(std::vector<int>{V_NONE, V_REGEX}); break;
        case T_PATH: e.val = o.file_validators && c.ch.g(2) ? c.ch.of(std::vector<int>{V_INFILE, V_OUTFILE, V_INDIR, V_OUTDIR}) : V_NONE; break;
        default: break;
        }
        if (o.user_validators && (e.type == T_INT || e.type == T_VINT) && c.ch.g(2))
        {
            e.val = V_USER;
            e.fail_at = (int)c.ch.g(4) - 1;
            e.fail_how = (int)c.ch.g(4);
        }
    };
    int n = (int)c.ch.g(6);
    std::string shorts = "abcdefgijklmnopqrstuvwxyz";
    std::vector<std::string> longs = long_names;
    for (int i = 0; i < n; ++i)
    {
        elem e;
        if (rich && c.ch.g(4) == 0)
        {
            e.kind = E_SECTION + (int)c.ch.g(4);
            e.desc = text(c, 12, rich);
            if (e.kind == E_SECTION || e.kind == E_SUBSECTION)
                e.desc = "Part " + e.desc;
            e.lid = text(c, 3, rich);
            e.adv = c.ch.g(4) == 1;
            e.hid = e.kind == E_LINE && c.ch.g(3) == 0;
            r.push_back(e);
            continue;
        }
        e.kind = c.ch.g(4) == 3 ? E_FLAG : E_OPTION;
        e.type = (int)c.ch.g(N_TYPES);
        unsigned ids = c.ch.g(3); // 0 both, 1 short, 2 long
        if (ids != 2)
        {
            size_t k = c.ch.g((uint32_t)shorts.size());
            e.sid = shorts[k];
            if (!(o.errors && c.ch.p(1, 60)))
                shorts.erase(k, 1);
        }
        if (ids != 1 && !longs.empty())
        {
            size_t k = c.ch.g((uint32_t)longs.size());
            e.lid = longs[k];
            if (!(o.errors && c.ch.p(1, 60)))
                longs.erase(longs.begin() + k);
        }
        e.desc = text(c, rich ? 14 : 4, rich);
        e.adv = c.ch.g(6) == 1;
        e.hid = c.ch.g(8) == 1;
        if (e.kind == E_OPTION)
        {
            e.req = c.ch.g(8) == 1;
            if (!e.req && c.ch.g(6) == 1)
                e.defmsg = "see text";
            pick_validator(e);
        }
        r.push_back(e);
    }
    if (pos)
    {
        int m = (int)c.ch.g(3);
        for (int i = 0; i < m; ++i)
        {
            elem e;
            e.kind = E_POS;
            e.type = i + 1 == m ? (int)c.ch.g(N_TYPES) : (int)c.ch.g(T_VINT);
            pick_validator(e);
            e.desc = text(c, rich ? 10 : 3, rich);
            r.push_back(e);
        }
    }
    return r;
}

static void gen_argv(ctx & c, gen_opts const & o, std::vector<elem> const & es, std::vector<std::string> & out)
{
    bool const err = o.errors && !o.simple && c.ch.g(3) == 2;
    std::vector<std::vector<std::string>> groups; // options, their values next to them
    std::vector<std::string> a;
    auto done = [&]
    {
        if (!a.empty())
            groups.push_back(std::move(a));
        a.clear();
    };
    std::string cluster;
    for (auto const & e : es)
    {
        done();
        if (e.kind == E_FLAG)
        {
            if (c.ch.g(3) == 1)
            {
                if (e.sid && c.ch.g(3) == 2)
                    cluster += e.sid;
                else
                    a.push_back(e.sid ? std::string("-") + e.sid : "--" + e.lid);
            }
            continue;
        }
        if (e.kind != E_OPTION)
            continue;
        bool const list = e.type >= T_VINT;
        int times = e.req ? 1 : (int)c.ch.g(2);
        if (list && times)
            times += (int)c.ch.g(3);
        if (err && c.ch.g(6) == 1)
            times = (int)c.ch.g(3);
        for (int k = 0; k < times; ++k)
        {
            std::string v = value_for(c, e, !(err && c.ch.g(4) == 1));
            bool const sh = e.sid && (e.lid.empty() || c.ch.g(2));
            switch (c.ch.g(3))
            {
            case 1: a.push_back(sh ? std::string("-") + e.sid + v : "--" + e.lid + "=" + v); break;
            case 2: a.push_back(sh ? std::string("-") + e.sid + "=" + v : "--" + e.lid + "=" + v); break;
            default:
                a.push_back(sh ? std::string("-") + e.sid : "--" + e.lid);
                a.push_back(v);
            }
        }
    }
    done();
    if (!cluster.empty())
        groups.push_back({"-" + cluster});
    if (err && c.ch.g(4) == 1)
        groups.push_back({c.ch.of(std::vector<std::string>{"--unknown", "-Z", "--alpah", "-", "---", "--out=", "--alph", "--be=3", "-ab", "@args.txt"})});
    bool const dd = c.ch.g(6) == 1;
    bool const mixed = !dd && c.ch.g(3) == 2; // options after positional arguments
    if (!mixed)
        for (auto & g : groups)
            out.insert(out.end(), g.begin(), g.end());
    if (dd)
        out.push_back("--");
    std::vector<std::string> pos;
    for (auto const & e : es)
        if (e.kind == E_POS)
        {
            if (err && c.ch.g(5) == 1)
                continue;
            std::string v = value_for(c, e, !(err && c.ch.g(4) == 1));
            if (!err && !dd && !v.empty() && v[0] == '-')
                v.erase(0, 1);
            pos.push_back(v);
            if (e.type >= T_VINT)
                for (int k = (int)c.ch.g(3); k > 0; --k)
                {
                    std::string v2 = value_for(c, e, true);
                    if (!dd && v2[0] == '-')
                        v2.erase(0, 1);
                    pos.push_back(v2);
                }
        }
    if (err && c.ch.g(6) == 1)
        pos.push_back("surplus");
    if (!mixed)
    {
        out.insert(out.end(), pos.begin(), pos.end());
        return;
    }
    size_t k = 0;
    for (auto & g : groups)
    {
        while (k < pos.size() && c.ch.g(2))
            out.push_back(pos[k++]);
        out.insert(out.end(), g.begin(), g.end());
    }
    out.insert(out.end(), pos.begin() + (long)k, pos.end());
}

prog gen_prog(ctx & c, gen_opts const & o)
{
    prog p;
    p.name = c.ch.of(std::vector<std::string>{"app", "my_app", "App-2", "a"});
    p.version = c.ch.of(std::vector<std::string>{"1.0.0", "", "2.3.4-rc1", "10.20.30", "0.0.1"});
    p.url = c.ch.of(std::vector<std::string>{"", "https://example.org/app"});
    bool const rich = o.rich;
    if (rich || c.ch.g(4) == 1)
    {
        if (c.ch.g(2)) p.author = "A. Author";
        if (c.ch.g(2)) p.citation = "Author et al.; https://doi.org/10.1/2";
        if (c.ch.g(2)) p.short_copyright = "BSD";
        if (c.ch.g(2)) p.long_copyright = "This is a long copyright text.\nWith lines.";
        if (c.ch.g(2)) p.date = "Jan 2024";
        if (c.ch.g(2)) p.email = "a@example.org";
        if (c.ch.g(2)) p.short_description = "does things";
        for (int i = (int)c.ch.g(3); i > 0; --i) p.description.push_back(text(c, 30, rich));
        for (int i = (int)c.ch.g(3); i > 0; --i) p.examples.push_back(text(c, 10, rich));
        for (int i = (int)c.ch.g(3); i > 0; --i) p.synopsis.push_back("app " + text(c, 6));
    }
    bool const subs = o.subcommands && c.ch.g(5) == 1;
    p.elems = gen_elems(c, o, !subs, rich);
    if (subs)
    {
        p.subcommands = {"build", "search"};
        p.sub_elems = gen_elems(c, o, true, rich);
    }
    gen_argv(c, o, p.elems, p.argv);
    if (subs)
    {
        p.argv.push_back(o.errors && !o.simple && c.ch.g(6) == 1 ? "serach" : c.ch.of(p.subcommands));
        size_t const before = p.argv.size();
        gen_argv(c, o, p.sub_elems, p.argv);
        if (o.simple && p.argv.size() == before)
        {
            // a subcommand alone prints its short help; keep it a plain run
            elem e;
            e.kind = E_FLAG;
            e.sid = 'F';
            e.desc = "keeps it plain";
            p.sub_elems.insert(p.sub_elems.begin(), e);
            p.argv.push_back("-F");
        }
    }
    if (o.errors && !o.simple && c.ch.p(1, 40))
        p.design = 1 + (int)c.ch.g(N_DESIGN - 1);
    if (o.special && c.ch.g(4) == 1)
    {
        static std::vector<std::vector<std::string>> const sp{{"--help"}, {"-h"}, {"-hh"}, {"--advanced-help"}, {"--version"}, {"--copyright"},
            {"--export-help", "html"}, {"--export-help=man"}, {"--export-help=html"}, {"--export-help", "man"}, {"--export-help", "pdf"}, {"--export-help"}};
        auto const & s = c.ch.of(sp);
        size_t at = c.ch.g(2) ? p.argv.size() : 0;
        p.argv.insert(p.argv.begin() + at, s.begin(), s.end());
    }
    if (o.simple && p.argv.empty())
    {
        // an empty command line prints the short help; keep it a plain run
        elem e;
        e.kind = E_FLAG;
        e.sid = 'F';
        e.desc = "keeps it plain";
        p.elems.insert(p.elems.begin(), e);
        p.argv.push_back("-F");
    }
    return p;
}

bool is_special(prog const & p)
{
    if (p.argv.empty())
        return true;
    for (auto & a : p.argv)
        if (a == "-h" || a == "--help" || a == "-hh" || a == "--advanced-help" || a == "--version" || a == "--copyright" || a.rfind("--export-help", 0) == 0)
            return true;
    return false;
}

std::map<std::string, std::string> odd_vars(ctx & c)
{
    std::map<std::string, std::string> r;
    if (c.ch.g(3) != 2)
        return r;
    static std::vector<std::pair<std::string, std::vector<std::string>>> const vars{
        {"COLUMNS", {"60", "200", "0", "-7", "many", "41"}}, {"LINES", {"10"}}, {"TERM", {"dumb", "xterm-256color", ""}}, {"NO_COLOR", {"1", ""}}, {"CLICOLOR_FORCE", {"1"}},
        {"LANG", {"de_DE.UTF-8", "C", "xx"}}, {"LC_ALL", {"de_DE.UTF-8", "tr_TR.UTF-8", "C.UTF-8"}}, {"LC_NUMERIC", {"de_DE"}}, {"XDG_CONFIG_HOME", {"/home/xdg", ""}},
        {"XDG_STATE_HOME", {"/home/xdg"}}, {"XDG_CACHE_HOME", {"/home/xdg"}}, {"USER", {"root", "u"}}, {"LOGNAME", {"u"}}, {"SHELL", {"/bin/false"}}, {"PWD", {"/"}},
        {"MANWIDTH", {"50"}}, {"PAGER", {"less"}}, {"CI", {"true", "1"}}, {"DEBUG", {"1"}}, {"NDEBUG", {"1"}}, {"VERBOSE", {"1"}}, {"https_proxy", {"http://proxy;touch pwned:1"}},
        {"SHARG_VERSION_CHECK", {"1", "true", "0"}}, {"SHARG_NO_VERSION_CHECKS", {"1"}}, {"NO_VERSION_CHECK", {"1"}}, {"SEQAN_NO_VERSION_CHECK", {"1"}}, {"SEQAN3_NO_VERSION_CHECK", {"1"}},
        {"sharg_no_version_check", {"1"}}, {"SOURCE_DATE_EPOCH", {"0", "99999999999"}}, {"TZ", {"Asia/Tokyo", ":bad"}}, {"POSIXLY_CORRECT", {"1"}}, {"IFS", {"/ "}}, {"WGETRC", {"/home/x"}}};
    for (int n = 1 + (int)c.ch.g(4); n > 0; --n)
    {
        auto const & v = c.ch.of(vars);
        r[v.first] = c.ch.of(v.second);
    }
    return r;
}

std::string show_vars(std::map<std::string, std::string> const & v)
{
    std::string s;
    for (auto & [k, x] : v)
        s += " " + k + "=" + quote(x);
    return s;
}

std::string show_prog(prog const & p)
{
    std::string s = p.name + " (version " + quote(p.version) + ", notifications " + (p.update_on ? "on" : "off") + (p.locale ? ", locale with 1.234,5" : "") + ") argv:";
    for (auto & a : p.argv)
        s += " " + quote(a);
    if (p.design)
        s += "; mistake " + std::to_string(p.design);
    s += "; spec:";
    static char const * tn[] = {"int", "u8", "i64", "double", "bool", "char", "string", "enum", "path", "user", "vint", "vstr", "venum"};
    static char const * vn[] = {"", "range", "list", "regex", "chain", "user", "infile", "outfile", "indir", "outdir"};
    for (auto const * es : {&p.elems, &p.sub_elems})
    {
        for (auto & e : *es)
        {
            s += e.kind == E_FLAG ? " flag" : e.kind == E_POS ? " pos" : e.kind == E_OPTION ? " opt" : " text";
            if (e.sid)
                s += std::string(" -") + e.sid;
            if (!e.lid.empty())
                s += " --" + e.lid;
            if (e.kind == E_OPTION || e.kind == E_POS)
                s += std::string(":") + tn[e.type] + (e.val ? std::string("/") + vn[e.val] : "") + (e.req ? "!" : "");
            if (e.val == V_USER)
                s += "@" + std::to_string(e.fail_at) + "," + std::to_string(e.fail_how);
            s += ";";
        }
        if (!p.subcommands.empty() && es == &p.elems)
            s += " | subcommand:";
    }
    return s;
}

static std::vector<std::string> probes{"dummy.txt", ".sharg_write_test"};
std::vector<std::string> const & probe_names() { return probes; }
void add_probe_name(std::string const & n)
{
    if (std::find(probes.begin(), probes.end(), n) == probes.end())
        probes.push_back(n);
}

// Which names does this library use for its probes? Found by watching one validation and one update check.
void calibrate()
{
    choices ch{std::array<std::vector<uint32_t>, N_STREAMS>{}};
    world w{ch};
    w.fs.mkdirs("/tmp", 01777, 0);
    w.fs.mkdirs("/home/u/work/dir", 0755, 1000);
    w.fs.mkdirs("/dev", 0755, 0);
    w.fs.put("/dev/null", ftype::chr, "null", 0666, 0);
    body_opts b;
    b.env["HOME"] = "/home/u";
    b.env["PATH"] = "/usr/bin:/bin";
    for (int i = 0; i < 2; ++i)
    {
        proc_opts o;
        o.name = "app";
        o.cwd = "/home/u/work";
        if (i == 0)
        {
            file_check k;
            k.kind = file_check::out_dir;
            k.path = "dir";
            o.body = [k, b] { return body_files({k}, b); };
        }
        else
        {
            prog p;
            p.update_on = true;
            elem e;
            e.kind = E_FLAG;
            e.sid = 'F';
            p.elems.push_back(e);
            p.argv = {"-F"};
            o.body = [p, b] { return body_app(p, b); };
        }
        w.spawn(std::move(o));
        w.run();
    }
    for (auto const & f : w.fevents)
        if (f.op == "remove")
        {
            std::string const n = f.path.substr(f.path.rfind('/') + 1);
            if (!n.empty() && n.find(".timestamp") == std::string::npos && n.find(".version") == std::string::npos && n.find('\n') == std::string::npos)
                add_probe_name(n);
        }
}
} // namespace sim
