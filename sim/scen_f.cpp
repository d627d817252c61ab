// File and directory validators: F01 - F05.
#include "harness.hpp"

#include <algorithm>

namespace sim
{
namespace
{
std::string lower(std::string s)
{
    for (auto & ch : s)
        ch = (char)tolower((unsigned char)ch);
    return s;
}

// ------------------------------------------------------------------------------------------------ file systems to validate in
struct place
{
    std::string path;   // as given to the validator
};

void gen_tree(ctx & c, world & w)
{
    vfs & f = w.fs;
    f.mkdirs("/tmp", 01777, 0);
    f.mkdirs("/dev", 0755, 0);
    f.put("/dev/null", ftype::chr, "null", 0666, 0);
    f.put("/dev/full", ftype::chr, "full", 0666, 0);
    f.mkdirs("/home/u/work", 0755, 1000);
    f.at("/home/u")->uid = f.at("/home/u")->gid = 1000;
    std::string const W = "/home/u/work/";
    auto dir = [&](std::string const & p, unsigned mode, int uid) { f.mkdirs(p, mode, uid); };
    f.file(W + "in.txt", "content of in.txt");
    f.file(W + "data.FA", "content of data");
    f.file(W + "arch.tar.gz", "packed");
    f.file(W + "noext", "x");
    f.file(W + ".hidden", "h");
    f.file(W + ".hidden.txt", "h");
    f.file(W + "empty.txt", "");
    f.file(W + "secret.txt", "s", 0000);
    f.file(W + "readonly.txt", "r", 0444);
    f.file(W + "writeonly.txt", "w", 0222);
    f.file(W + "roots.txt", "root's", 0644, 0);
    f.file(W + "roots_open.txt", "root's", 0666, 0);
    dir(W + "dir", 0755, 1000);
    f.file(W + "in.notxt", "n");
    f.file(W + "..txt", "n");
    f.file(W + "dir/arch.tgz", "n");
    f.file(W + "dir/a.txt", "a");
    f.file(W + "dir/out.txt", "old output");
    dir(W + "dir.txt", 0755, 1000);
    dir(W + "emptydir", 0755, 1000);
    dir(W + "rodir", 0755, 1000);
    f.file(W + "rodir/f.txt", "writable file in a read-only directory", 0644);
    f.file(W + "rodir/g.txt", "unwritable file", 0444);
    dir(W + "wonly", 0755, 1000);
    f.file(W + "wonly/f.txt", "f");
    dir(W + "noaccess", 0755, 1000);
    f.file(W + "noaccess/f.txt", "f");
    dir(W + "ronly", 0755, 1000); // readable but not searchable
    f.file(W + "ronly/f.txt", "f");
    dir(W + "rootdir", 0755, 0);
    f.file(W + "rootdir/f.txt", "f", 0666, 0);
    dir("/home/sticky", 01777, 0);
    f.file("/home/sticky/theirs.txt", "someone else's", 0666, 1001);
    f.file("/home/sticky/ours.txt", "ours", 0644, 1000);
    dir("/home/ro_mount", 0755, 1000);
    dir("/home/ro_mount/d", 0755, 1000);
    f.file("/home/ro_mount/f.txt", "f");
    f.at("/home/ro_mount")->mnt = MF_RO;
    dir("/home/full_mount", 0755, 1000);
    f.file("/home/full_mount/f.txt", "f");
    f.at("/home/full_mount")->mnt = MF_FULL;
    dir("/home/noinode_mount", 0755, 1000);
    f.file("/home/noinode_mount/f.txt", "f");
    f.at("/home/noinode_mount")->mnt = MF_NOINODES;
    f.put(W + "link.txt", ftype::lnk, "in.txt", 0777, 1000);
    f.put(W + "linkdir", ftype::lnk, "dir", 0777, 1000);
    f.put(W + "dangling.txt", ftype::lnk, "dir/not_there.txt", 0777, 1000);
    f.put(W + "dangling2.txt", ftype::lnk, "/nonexistent/not_there.txt", 0777, 1000);
    f.put(W + "danglingdir", ftype::lnk, "dir/not_there", 0777, 1000);
    f.put(W + "loop.txt", ftype::lnk, "loop.txt", 0777, 1000);
    f.put(W + "tonull.txt", ftype::lnk, "/dev/null", 0777, 1000);
    f.put(W + "tosecret.txt", ftype::lnk, "noaccess/f.txt", 0777, 1000);
    f.put(W + "pipe.txt", ftype::fifo, "", 0644, 1000);
    f.at(W + "rodir")->mode = 0555;
    f.at(W + "wonly")->mode = 0333;
    f.at(W + "noaccess")->mode = 0000;
    f.at(W + "ronly")->mode = 0444;
    // names a validator might use for its own probes
    auto precious = [&](std::string const & d)
    {
        unsigned const how = c.ch.g(7);
        if (how == 0 || how == 6)
            return;
        std::string const n = d + "/" + c.ch.of(probe_names());
        switch (how)
        {
        case 1: f.file(n, "precious user data"); break;
        case 2: f.mkdirs(n, 0755, 1000); f.file(n + "/inner.txt", "precious"); break;
        case 3: f.put(n, ftype::lnk, W + "in.txt", 0777, 1000); break;
        case 4: f.file(n, "precious root data", 0600, 0); break;
        default: f.put(n, ftype::lnk, W + "dir/created_through_link", 0777, 1000); break;
        }
    };
    for (auto & d : {W + "dir", W + "dir.txt", W + "emptydir", std::string("/home/sticky"), std::string("/home/full_mount")})
        precious(d);
}

std::string gen_path(ctx & c, int kind)
{
    static std::vector<std::string> const files{
        "in.txt", "data.FA", "arch.tar.gz", "noext", ".hidden", ".hidden.txt", "empty.txt", "secret.txt", "readonly.txt", "writeonly.txt", "roots.txt", "roots_open.txt",
        "dir/a.txt", "dir/out.txt", "rodir/f.txt", "rodir/g.txt", "wonly/f.txt", "noaccess/f.txt", "ronly/f.txt", "rootdir/f.txt", "/home/sticky/theirs.txt", "/home/sticky/ours.txt",
        "/home/ro_mount/f.txt", "/home/full_mount/f.txt", "/home/noinode_mount/f.txt", "link.txt", "dangling.txt", "dangling2.txt", "loop.txt", "tonull.txt", "tosecret.txt", "pipe.txt",
        "/dev/null", "/dev/full", "linkdir/a.txt", "in.notxt", "dir/arch.tgz", "..txt"};
    static std::vector<std::string> const fresh{
        "new.txt", "new.FA", "new.bam", "new", ".new", ".new.txt", "dir/new.txt", "rodir/new.txt", "wonly/new.txt", "noaccess/new.txt", "ronly/new.txt", "rootdir/new.txt",
        "/home/sticky/new.txt", "/home/ro_mount/new.txt", "/home/full_mount/new.txt", "/home/noinode_mount/new.txt", "nodir/new.txt", "in.txt/new.txt", "linkdir/new.txt",
        "emptydir/new.txt", "new.tar.gz", "new.txt.gz", "with space.txt", "new\nline.txt", "dir/dummy.txt", "emptydir/.sharg_write_test", "txt", ".txt", "new.TXT", "a.b.c.txt", "new.notxt", "dir/new.tgz", ".tar.gz", "new.xfa", "new..txt", "new.txt."};
    static std::vector<std::string> const dirs{"dir", "emptydir", "rodir", "wonly", "noaccess", "ronly", "rootdir", "/home/sticky", "/home/ro_mount", "/home/ro_mount/d", "/home/full_mount",
                                               "/home/noinode_mount", "linkdir", "danglingdir", "dir.txt", ".", "..", "/", "/tmp", "dir/..", "noaccess/sub"};
    static std::vector<std::string> const newdirs{"newdir", "dir/newdir", "rodir/newdir", "noaccess/newdir", "nodir/newdir", "in.txt/newdir", "/home/ro_mount/newdir", "/home/full_mount/newdir",
                                                  "/home/noinode_mount/newdir", "/home/sticky/newdir", "rootdir/newdir", "newdir.txt", "wonly/newdir", "ronly/newdir"};
    static std::vector<std::string> const odd{"", std::string(300, 'n') + ".txt", "dir/" + std::string(250, 'n'), std::string(5000, 'p'), "dir//a.txt", "./in.txt", "dir/../in.txt", "in.txt/", "new.txt/", "dir.", "-"};
    bool const is_dir = kind >= 2;
    unsigned k = c.ch.g(10);
    std::string p;
    if (k < 4)
        p = c.ch.of(is_dir ? dirs : files);
    else if (k < 7)
        p = c.ch.of(is_dir ? newdirs : fresh);
    else if (k == 7)
        p = c.ch.of(is_dir ? files : dirs);
    else if (k == 8)
        p = c.ch.of(odd);
    else
        p = c.ch.of(is_dir ? newdirs : files);
    switch (c.ch.g(8))
    {
    case 6: if (!p.empty() && p[0] != '/') p = "/home/u/work/" + p; break;
    case 7: if (is_dir && !p.empty() && p != "/") p += "/"; break;
    default: break;
    }
    return p;
}

std::vector<std::string> gen_exts(ctx & c)
{
    static std::vector<std::vector<std::string>> const e{{}, {}, {"txt"}, {"fa", "txt"}, {"bam"}, {"tar.gz"}, {"gz"}, {"FA", "Fasta"}, {"sam", "bam", "tXt"}, {".txt", ".gz"}};
    return c.ch.of(e);
}

// ------------------------------------------------------------------------------------------------ reference model
// documented extension rule: suffix of the file name starting with a dot, ignoring case, leading dot of hidden files not counted
enum tri { NO, YES, EITHER };

tri ext_ok(std::string const & path, std::vector<std::string> const & exts)
{
    if (exts.empty())
        return YES;
    std::string n = path.substr(path.rfind('/') == std::string::npos ? 0 : path.rfind('/') + 1);
    if (n.empty() || n == "." || n == "..")
        return NO;
    std::string m = n[0] == '.' ? n.substr(1) : n;
    if (m.find('.') == std::string::npos)
        return NO; // no extension
    for (auto & e : exts)
    {
        std::string le = lower(e), lm = lower(m);
        if (le.empty() || le[0] != '.')
            le = "." + le;
        if (lm.size() >= le.size() && lm.compare(lm.size() - le.size(), le.size(), le) == 0)
            return YES;
    }
    return NO;
}

tri model(world const & w, file_check const & k, std::string const & path, cred const & c, inode * cwd)
{
    vfs const & f = w.fs;
    auto both = [](tri a, tri b) { return a == NO || b == NO ? NO : a == EITHER || b == EITHER ? EITHER : YES; };
    lookup l = f.resolve(cwd, path, c, true);
    switch (k.kind)
    {
    case file_check::in_file:
        if (!l.node || l.node->type != ftype::reg || !vfs::access(*l.node, c, 4))
            return NO;
        return ext_ok(path, k.exts);
    case file_check::in_dir: return l.node && l.node->type == ftype::dir && vfs::access(*l.node, c, 4) ? YES : NO;
    case file_check::out_file:
    {
        if (l.node)
        {
            if (l.node->type == ftype::dir || k.create_new)
                return NO;
            if (l.node->type != ftype::reg)
                return l.node->type == ftype::chr ? both(vfs::access(*l.node, c, 2) ? YES : NO, ext_ok(path, k.exts)) : (vfs::access(*l.node, c, 2) ? EITHER : NO);
            if (!vfs::access(*l.node, c, 2) || (l.mnt & MF_RO))
                return NO;
            return ext_ok(path, k.exts);
        }
        if (l.err != ENOENT || !l.dir || l.trailing_slash || (l.mnt & (MF_RO | MF_NOINODES)) || !vfs::access(*l.dir, c, 3) || l.name.size() > 255)
            return NO;
        // a dangling link: the target could be created, but in create-new mode something does exist under this name
        lookup nf = f.resolve(cwd, path, c, false);
        if (nf.node && k.create_new)
            return both(EITHER, ext_ok(path, k.exts));
        return ext_ok(path, k.exts);
    }
    case file_check::out_dir:
    {
        if (l.node)
        {
            if (l.node->type != ftype::dir || (l.mnt & (MF_RO | MF_NOINODES)) || !vfs::access(*l.node, c, 3))
                return NO;
            return YES;
        }
        lookup nf = f.resolve(cwd, path, c, false);
        if (nf.node) // dangling link
            return NO;
        if (l.err != ENOENT || !l.dir || (l.mnt & (MF_RO | MF_NOINODES)) || !vfs::access(*l.dir, c, 3) || l.name.size() > 255)
            return NO;
        return YES;
    }
    }
    return EITHER;
}

std::string show_check(file_check const & k)
{
    static char const * n[] = {"input_file", "output_file", "input_directory", "output_directory"};
    std::string s = std::string(n[k.kind]) + "_validator(";
    if (k.kind == file_check::out_file)
        s += k.create_new ? "create_new" : "open_or_create";
    for (auto & e : k.exts)
        s += " " + e;
    s += ") on " + quote(k.path);
    if (k.as_list)
        s += " and " + quote(k.path2);
    s += k.via_parser ? " in a parser" : " called directly";
    return s;
}

process_t & start(world & w, std::vector<std::vector<file_check>> const & ks, cred c, fault_plan fp, int64_t delay = 0, unsigned umask_ = 022, std::map<std::string, std::string> const & vars = {})
{
    proc_opts o;
    o.name = "app";
    o.c = c;
    o.cwd = "/home/u/work";
    o.fp = fp;
    o.start_delay = delay;
    body_opts b;
    b.env["HOME"] = "/home/u";
    b.env["PATH"] = "/usr/bin:/bin";
    for (auto & [k, v] : vars)
        b.env[k] = v;
    o.body = [ks, b] { return ks.size() == 1 ? body_files(ks[0], b) : body_files_threads(ks, b); };
    process_t & p = w.spawn(std::move(o));
    p.umask_ = umask_;
    return p;
}

file_check gen_check(ctx & c)
{
    file_check k;
    k.kind = (file_check::kind_t)c.ch.g(4);
    k.create_new = c.ch.g(2) == 0;
    if (k.kind <= file_check::out_file)
        k.exts = gen_exts(c);
    k.path = gen_path(c, k.kind);
    k.via_parser = c.ch.g(3) == 2;
    if (k.path.find('\n') != std::string::npos || k.path.empty() || k.path[0] == '-')
        k.via_parser = false;
    return k;
}

// What the validators may do to the entries that existed before.
std::string damage(world const & w, vfs::snap const & a, vfs::snap const & b, file_check const & k, std::set<std::string> const & exempt)
{
    std::string r;
    for (auto & [n, e] : a)
    {
        auto it = b.find(n);
        if (it != b.end() && e.same(it->second))
            continue;
        // acceptable for overwriting: the old regular file may go or be emptied
        if (k.kind == file_check::out_file && !k.create_new && e.type == ftype::reg && exempt.count(n)
            && (it == b.end() || (it->second.type == ftype::reg && it->second.data.empty())))
            continue;
        if (it == b.end())
            r += std::string(type_name(e.type)) + " " + quote(n) + " was removed; ";
        else if (it->second.type != e.type)
            r += quote(n) + " was a " + type_name(e.type) + " and is now a " + type_name(it->second.type) + "; ";
        else if (it->second.data != e.data)
            r += "content of " + quote(n) + " changed from " + quote(e.data) + " to " + quote(it->second.data) + "; ";
        else
            r += "permissions or owner of " + quote(n) + " changed; ";
    }
    (void)w;
    return r;
}

unsigned const dir_faults[] = {FC_FS & ~FC_REMOVE, FC_OPEN, FC_STAT, FC_MKDIR, FC_READ | FC_READDIR, FC_WRITE | FC_CLOSE, FC_CLOSE};

void gen_faults(ctx & c, fault_plan & fp, bool removal)
{
    unsigned k = c.ch.g(removal ? 9 : 7);
    fp.classes = k < 7 ? dir_faults[k] : k == 7 ? (unsigned)FC_REMOVE : (unsigned)FC_FS;
    if (c.ch.g(2))
        fp.at = (int)c.ch.g(16);
    else
    {
        fp.num = c.ch.of(std::vector<uint32_t>{100, 300, 700});
        fp.max = 1 + c.ch.g(5);
    }
}

// one validation after the other; which: property number
void f_single(ctx & c, int which)
{
    world w{c.ch};
    w.trace_on = c.trace_on;
    gen_tree(c, w);
    cred cr{1000, 1000};
    if (c.ch.g(8) == 7)
        cr = {0, 0};
    if (c.ch.g(8) == 7)
        cr = {1001, 1001};
    int const n = 1 + (int)c.ch.g(which == 4 ? 2 : 3);
    for (int i = 0; i < n && !c.bad(); ++i)
    {
        file_check k = gen_check(c);
        if (k.via_parser && c.ch.g(4) == 3 && (k.kind <= file_check::out_file || k.kind == file_check::out_dir))
        {
            k.as_list = true;
            k.path2 = gen_path(c, k.kind);
            if (k.path2.empty() || k.path2[0] == '-' || k.path2.find('\n') != std::string::npos)
                k.path2 = "in.txt";
        }
        fault_plan fp;
        bool const faulty = which == 3 ? c.ch.g(3) == 2 : which == 4 ? c.ch.g(5) != 4 : c.ch.g(2);
        if (faulty)
            gen_faults(c, fp, which == 4 || (which == 1 && c.ch.g(3) == 2));
        if (which == 2)
            fp.classes &= ~FC_REMOVE;
        bool const crash = which == 1 && !faulty && c.ch.g(4) == 3;
        if (crash)
        {
            fp.crash_at = 1 + (int)c.ch.g(20);
            fp.crash_after = c.ch.g(2);
        }
        unsigned const um = c.ch.of(std::vector<unsigned>{022, 077, 0, 027, 0777, 0222});
        inode * cwd = w.fs.at("/home/u/work").get();
        tri const m1 = model(w, k, k.path, cr, cwd);
        tri const m2 = k.as_list ? model(w, k, k.path2, cr, cwd) : YES;
        tri expect = m1 == NO || m2 == NO ? NO : m1 == EITHER || m2 == EITHER ? EITHER : YES;
        // a new directory that the umask closes for its owner
        if (k.kind == file_check::out_dir && cr.uid != 0 && (um & 0300) && expect == YES)
            expect = EITHER;
        auto const before = w.fs.snapshot();
        // regular files named by paths that are acceptable (for overwriting)
        std::set<std::string> named;
        for (int q = 0; q < (k.as_list ? 2 : 1); ++q)
        {
            lookup l = w.fs.resolve(cwd, q ? k.path2 : k.path, cr, true);
            if ((q ? m2 : m1) != NO && l.node && l.node->type == ftype::reg)
                for (auto & [nm, e] : before)
                    if (e.ino == l.node->ino)
                        named.insert(nm);
        }
        auto const vars = odd_vars(c);
        process_t & p = start(w, {{k}}, cr, fp, 0, um, vars);
        w.run();
        if (!w.harness_error.empty())
            break;
        auto const after = w.fs.snapshot();
        std::string const res = p.report("check0");
        bool const accepted = res == "accept";
        std::string L = show_check(k) + " as uid " + std::to_string(cr.uid) + show_vars(vars);
        if (um != 022)
        {
            char b[16];
            snprintf(b, sizeof b, "%o", um);
            L += std::string(" umask ") + b;
        }
        std::string inj;
        for (auto & x : p.failures)
            inj += x + "; ";
        if (!inj.empty())
            L += " with injected " + inj;
        c.note(L + " -> " + (res.empty() ? how_ended(p) : res));
        bool const removal_failed = inj.find("unlink(") != std::string::npos || inj.find("rmdir(") != std::string::npos || inj.find("rename(") != std::string::npos;
        bool const fatal = p.end != pend::exited && p.end != pend::killed;
        auto resolves_odd = [&](std::string const & pth)
        {
            lookup l = w.fs.resolve(cwd, pth, cr, true);
            return l.node && l.node->type == ftype::fifo;
        };
        (void)resolves_odd;

        if (which == 1)
        {
            if (!accepted && !k.as_list && !crash)
                named.clear();
            std::string d = damage(w, before, after, k, named);
            if (!d.empty())
                c.fail(accepted ? "accepted-destroys" : crash ? "crash-destroys" : "rejected-destroys", L + " (" + (res.empty() ? how_ended(p) : res) + "): " + d);
        }
        if (which == 2 && p.end == pend::exited)
        {
            std::string d;
            // entries whose removal the system itself does not permit may stay
            for (auto & [nm, e] : after)
                if (!before.count(nm))
                    d += std::string(type_name(e.type)) + " " + quote(nm) + " was left behind; ";
            // may the user remove entries there?
            bool can = true;
            for (auto & [nm, e] : after)
                if (!before.count(nm))
                {
                    lookup l = w.fs.resolve(cwd, nm, cr, false);
                    if (!l.dir || !vfs::access(*l.dir, cr, 3) || !vfs::sticky_ok(*l.dir, *l.node, cr))
                        can = false;
                }
            if (!d.empty() && can)
                c.fail("left-behind", L + " (" + res + "): " + d);
            if (p.leaked_fds)
                c.fail("fd-leak", L + " (" + res + "): " + std::to_string(p.leaked_fds) + " file descriptors stay open");
        }
        if (which == 3 && p.end == pend::exited && !res.empty())
        {
            if (p.failures.empty())
            {
                if (expect == YES && !accepted)
                    c.fail("wrongly-rejected", L + " must be accepted but: " + res);
                if (expect == NO && accepted)
                    c.fail("wrongly-accepted", L + " was accepted");
                c.reach(std::string("model says ") + (expect == YES ? "accept" : expect == NO ? "reject" : "either"));
            }
            else if (accepted)
            {
                if (expect == NO)
                    c.fail("wrongly-accepted", L + " was accepted");
                // an injected refusal of the access the contract is about
                bool refused = false;
                for (auto & x : p.failures)
                {
                    if (x.rfind("open(", 0) == 0 && (k.kind == file_check::in_file || k.kind == file_check::in_dir || x.find(", write)") != std::string::npos))
                        refused = true;
                    if (x.rfind("mkdir(", 0) == 0)
                        refused = true;
                }
                if (refused)
                    c.fail("accepted-despite-refusal", L + " was accepted");
                c.reach("accepted despite an irrelevant failure");
            }
            else
                c.reach("rejected under injected failures");
        }
        if (which == 4)
        {
            if (fatal)
                c.fail("terminated", L + ": the program " + how_ended(p));
            else if (p.end == pend::exited)
            {
                if (!accepted && res.rfind("reject;validation_error", 0) != 0)
                    c.fail("wrong-exception", L + ": " + (res.empty() ? "no result" : res));
                if (p.leaked_fds)
                    c.fail("fd-leak", L + " (" + res + "): " + std::to_string(p.leaked_fds) + " file descriptors stay open");
            }
            if (!p.failures.empty())
                c.reach("validation with injected failures");
        }
        if (which != 4 && fatal && !removal_failed)
        {
            // reported by F04; the other properties still judge the state left behind
            c.reach("terminated (see F04)");
        }
        c.reach(accepted ? "accepted" : "rejected");
        c.mixs(show_check(k));
        c.mixs(res);
        c.mixs(inj);
        c.mixs(cr.uid);
    }
    c.nontrivial = true;
    c.absorb(w);
}
void f01(ctx & c) { f_single(c, 1); }
void f02(ctx & c) { f_single(c, 2); }
void f03(ctx & c) { f_single(c, 3); }
void f04(ctx & c) { f_single(c, 4); }

// =============================================================================================== F05
void f05(ctx & c)
{
    world w{c.ch};
    w.trace_on = c.trace_on;
    w.fs.mkdirs("/home/u/work", 0755, 1000);
    w.fs.at("/home/u")->uid = 1000;
    w.fs.mkdirs("/tmp", 01777, 0);
    gen_sched(c, w, c.ch.g(3) == 2);
    if (w.sched.policy == sched_policy::run_to_block && c.ch.g(4))
        w.sched.policy = sched_policy::random;
    std::vector<std::string> const dirs{"shared", "shared/sub", "shared/sub2", "other"};
    int const existing = (int)c.ch.g(4);
    for (int i = 0; i < existing; ++i)
        w.fs.mkdirs("/home/u/work/" + dirs[i], 0755, 1000);
    if (existing && c.ch.g(2))
        w.fs.file("/home/u/work/shared/" + c.ch.of(probe_names()), "earlier result");
    if (existing && c.ch.g(2))
        w.fs.file("/home/u/work/shared/earlier.txt", "earlier result");
    int const n = 2 + (int)c.ch.g(3);
    std::vector<process_t *> ps;
    std::vector<std::string> labels;
    std::vector<bool> threaded;
    struct must { int proc, check; std::string what; };
    std::vector<must> musts; // validations in directories that exist all the time
    bool disturbed = false;
    for (int i = 0; i < n; ++i)
    {
        std::vector<std::vector<file_check>> groups(1 + (c.ch.g(4) == 3) * (1 + c.ch.g(2)));
        threaded.push_back(groups.size() > 1);
        std::string L;
        for (size_t t = 0; t < groups.size(); ++t)
        {
            int const m = 1 + (int)c.ch.g(3);
            for (int j = 0; j < m; ++j)
            {
                file_check k;
                k.kind = c.ch.g(3) == 2 ? file_check::out_file : file_check::out_dir;
                k.create_new = c.ch.g(2);
                size_t const di = c.ch.g((uint32_t)dirs.size());
                std::string const d = dirs[di];
                std::string const mine = "p" + std::to_string(i) + "_" + std::to_string(10 * t + j) + ".txt";
                k.via_parser = c.ch.g(2);
                if (k.kind == file_check::out_dir)
                {
                    k.path = d;
                    if (c.ch.g(4) != 3)
                        k.writes.push_back(mine);
                    // only one thread of one process may own a file name
                    if (c.ch.g(6) == 5 && i == 0 && t == 0)
                        k.writes.push_back("dummy.txt");
                }
                else
                {
                    k.path = d + "/" + mine;
                    if (c.ch.g(4) != 3)
                        k.writes.push_back(mine);
                }
                k.pause = c.ch.of(std::vector<int64_t>{0, 0, MS});
                k.check_results = true;
                k.hold = c.ch.of(std::vector<int64_t>{0, MS, 10 * MS});
                if ((int)di < existing)
                    musts.push_back({i, (int)(10 * t) + j, show_check(k)});
                L += show_check(k) + " then writes " + std::to_string(k.writes.size()) + " files; ";
                groups[t].push_back(k);
            }
            if (groups.size() > 1)
                L += t + 1 < groups.size() ? "in another thread " : "(threads) ";
        }
        fault_plan fp;
        if (c.ch.g(6) == 5)
        {
            fp.crash_at = 1 + (int)c.ch.g(40);
            fp.crash_after = c.ch.g(2);
            L += "crash at op " + std::to_string(fp.crash_at);
        }
        // errors only while the library validates would need phases; processes that suffer errors do not write
        if (c.ch.g(8) == 7)
        {
            fp.classes = c.ch.of(std::vector<unsigned>{FC_STAT, FC_MKDIR, FC_REMOVE, FC_CLOSE});
            fp.num = 200;
            fp.max = 2;
            for (auto & g : groups)
                for (auto & k : g)
                    k.writes.clear();
            L += "with faults";
            disturbed = true;
        }
        int64_t delay = c.ch.of(std::vector<int64_t>{0, 0, 10 * US, 40 * US, 100 * US, MS});
        c.note("process " + std::to_string(i) + " starts after " + std::to_string(delay / US) + " us: " + L);
        ps.push_back(&start(w, groups, cred{1000, 1000}, fp, delay));
        labels.push_back(L);
        c.mixs(L);
    }
    w.run();
    // every result that was completely written is still there
    std::string all;
    for (int i = 0; i < n; ++i)
        all += "process " + std::to_string(i) + ": " + labels[i] + " | ";
    for (auto * p : ps)
    {
        for (auto & r : p->reports)
            if (r.first == "lost")
                c.fail("result-lost", all + "process " + std::to_string(p->id) + " wrote " + quote(r.second) + " and it is gone or changed");
        if (p->end == pend::aborted || p->end == pend::crashed || p->end == pend::hung)
            c.reach("terminated (see F04)");
    }
    for (auto & m : musts)
    {
        std::string const r = ps[m.proc]->report("check" + std::to_string(m.check));
        if (!r.empty() && r != "accept" && !disturbed)
            c.fail("disturbed-each-other", all + "process " + std::to_string(m.proc) + ": " + m.what + " in an existing directory: " + r);
        c.reach("validation in an existing directory beside others");
    }
    // whoever removed or emptied a file that another process created, or a directory that is not its own
    std::map<std::string, int> owner;
    std::map<std::string, int> writer;
    if (w.fs.root)
        for (auto const & f : w.fevents)
        {
            if (f.op == "create" || f.op == "mkdir")
                owner[f.path] = f.proc;
            else if (f.op == "write")
                writer[f.path] = f.proc;
            else if (f.op == "remove" || f.op == "truncate" || f.op == "rename")
            {
                auto o = owner.find(f.path);
                int who = o == owner.end() ? -3 : o->second;
                auto wr = writer.find(f.path);
                if (wr != writer.end())
                    who = wr->second;
                // the programs' own writes are not the library's business
                bool validating = false;
                if (f.proc >= 0 && f.proc < n && !threaded[f.proc])
                    for (auto & m : ps[f.proc]->marks)
                        if (m.seq <= f.seq)
                            validating = m.value >= 100 && m.value < 200;
                if (validating && who != f.proc)
                    c.fail("foreign-entry", all + "process " + std::to_string(f.proc) + " " + (f.op == "remove" ? "removed" : "emptied") + " " + quote(f.path) + " which "
                                                + (who == -3 ? "existed before" : "process " + std::to_string(who) + " created"));
                if (f.op == "remove")
                {
                    owner.erase(f.path);
                    writer.erase(f.path);
                }
            }
        }
    c.nontrivial = w.switches > 1;
    c.mixs(w.switches);
    c.absorb(w);
}
} // namespace

std::vector<scenario> f_scenarios()
{
    return {
        {"F01", f01, "1-3 validations of generated paths (files, directories, links, devices, pipes; owners, permissions, mounts; valuable files under probe names) with faults and crashes"},
        {"F02", f02, "1-3 validations of generated paths with faults other than failing removals"},
        {"F03", f03, "1-3 validations of generated paths, judged by a reference model of the contract; with faults: never accepted after a refusal"},
        {"F04", f04, "1-2 validations of generated paths with faults at any system call, including failing removals"},
        {"F05", f05, "2-4 processes validating the same or nested output directories and their own files there while others write"},
    };
}
} // namespace sim
