// In-memory POSIX-like file system with users, permissions, links, devices, read-only and full areas.
#pragma once
#include <cerrno>
#include <cstdint>
#include <fcntl.h>
#include <map>
#include <memory>
#include <string>
#include <sys/stat.h>
#include <vector>

namespace sim
{
enum class ftype { reg, dir, lnk, fifo, chr, sock };
enum mnt_flags : unsigned { MF_RO = 1, MF_FULL = 2, MF_NOINODES = 4 };

struct inode;
using inode_p = std::shared_ptr<inode>;
struct inode
{
    uint64_t ino{};
    ftype type{ftype::reg};
    unsigned mode{0644};
    int uid{0}, gid{0};
    unsigned mnt{0};     // flags of this directory's subtree
    std::string data;    // contents or link target; device name for chr ("null", "full", "tty")
    std::map<std::string, inode_p> ents;
    inode * parent{};
    int nlink{1};
    int64_t mtime{};
    std::string synced;  // last contents known to be durable (power loss)
    bool has_synced{};
};

struct cred { int uid{1000}; int gid{1000}; };

struct lookup
{
    int err{};          // error that prevented finding the parent directory or the final component (ENOENT is normal)
    inode_p node;       // final component, if it exists
    inode * dir{};      // its parent directory (nullptr for "/" or unresolvable parent)
    std::string name;   // last component
    unsigned mnt{};
    bool trailing_slash{};
};

class vfs
{
public:
    inode_p root;
    uint64_t next_ino{100};

    vfs() { root = mk(ftype::dir, 0755, 0, 0); root->parent = root.get(); }

    inode_p mk(ftype t, unsigned mode, int uid, int gid)
    {
        auto n = std::make_shared<inode>();
        n->ino = next_ino++;
        n->type = t;
        n->mode = mode;
        n->uid = uid;
        n->gid = gid;
        if (t == ftype::dir)
            n->nlink = 2;
        return n;
    }

    static bool access(inode const & n, cred const & c, unsigned want) // want: 4 r, 2 w, 1 x
    {
        if (c.uid == 0)
            return !(want & 1) || n.type == ftype::dir || (n.mode & 0111);
        unsigned bits = c.uid == n.uid ? (n.mode >> 6) : c.gid == n.gid ? (n.mode >> 3) : n.mode;
        return (bits & want) == want;
    }

    // Resolves a path; never creates anything.
    lookup resolve(inode * cwd, std::string const & path, cred const & c, bool follow_last, int depth = 0) const
    {
        lookup r;
        if (path.empty())
        {
            r.err = ENOENT;
            return r;
        }
        if (path.size() >= 4096)
        {
            r.err = ENAMETOOLONG;
            return r;
        }
        inode * cur = path[0] == '/' ? root.get() : cwd;
        r.mnt = mnt_of(cur);
        std::vector<std::string> parts;
        size_t i = 0;
        while (i < path.size())
        {
            while (i < path.size() && path[i] == '/')
                ++i;
            size_t j = i;
            while (j < path.size() && path[j] != '/')
                ++j;
            if (j > i)
                parts.push_back(path.substr(i, j - i));
            i = j;
        }
        r.trailing_slash = path.size() > 1 && path.back() == '/';
        if (parts.empty())
        {
            r.node = self(cur);
            r.dir = nullptr;
            r.name = "/";
            return r;
        }
        for (size_t k = 0; k < parts.size(); ++k)
        {
            bool const last = k + 1 == parts.size();
            std::string const & nm = parts[k];
            if (cur->type != ftype::dir)
            {
                r.err = ENOTDIR;
                return r;
            }
            if (!access(*cur, c, 1))
            {
                r.err = EACCES;
                return r;
            }
            if (nm.size() > 255)
            {
                r.err = ENAMETOOLONG;
                return r;
            }
            if (nm == "." || nm == "..")
            {
                if (nm == "..")
                    cur = cur->parent;
                if (last)
                {
                    r.node = self(cur);
                    r.dir = nullptr;
                    r.name = nm;
                    r.mnt = mnt_of(cur);
                    return r;
                }
                continue;
            }
            auto it = cur->ents.find(nm);
            if (it == cur->ents.end())
            {
                r.err = ENOENT;
                if (last)
                {
                    r.dir = cur;
                    r.name = nm;
                    r.mnt = mnt_of(cur);
                }
                return r;
            }
            inode_p n = it->second;
            if (n->type == ftype::lnk && (!last || follow_last || r.trailing_slash))
            {
                if (depth > 30)
                {
                    r.err = ELOOP;
                    return r;
                }
                std::string rest;
                for (size_t q = k + 1; q < parts.size(); ++q)
                    rest += "/" + parts[q];
                std::string target = n->data + rest + (r.trailing_slash ? "/" : "");
                return resolve(cur, target, c, follow_last, depth + 1);
            }
            if (last)
            {
                r.node = n;
                r.dir = cur;
                r.name = nm;
                r.mnt = mnt_of(n->type == ftype::dir ? n.get() : cur);
                if (r.trailing_slash && n->type != ftype::dir)
                {
                    r.err = ENOTDIR;
                    r.node.reset();
                }
                return r;
            }
            cur = n.get();
        }
        return r;
    }

    unsigned mnt_of(inode const * d) const
    {
        unsigned f = 0;
        for (inode const * q = d;; q = q->parent)
        {
            f |= q->mnt;
            if (q == root.get() || !q->parent)
                break;
        }
        return f;
    }

    inode_p self(inode * d) const
    {
        if (d == root.get())
            return root;
        for (auto & [n, e] : d->parent->ents)
            if (e.get() == d)
                return e;
        return inode_p{inode_p{}, d}; // unlinked directory
    }

    static bool sticky_ok(inode const & dir, inode const & n, cred const & c)
    {
        return !(dir.mode & 01000) || c.uid == 0 || c.uid == dir.uid || c.uid == n.uid;
    }

    // ---- convenience for building worlds (as root) ----
    inode_p at(std::string const & path, bool follow = true) const
    {
        auto r = resolve(root.get(), path, cred{0, 0}, follow);
        return r.err ? nullptr : r.node;
    }
    inode_p mkdirs(std::string const & path, unsigned mode = 0755, int uid = 0, int gid = -1)
    {
        inode * cur = root.get();
        size_t i = 0;
        inode_p n = root;
        while (i < path.size())
        {
            while (i < path.size() && path[i] == '/')
                ++i;
            size_t j = path.find('/', i);
            if (j == std::string::npos)
                j = path.size();
            if (j == i)
                break;
            std::string nm = path.substr(i, j - i);
            auto it = cur->ents.find(nm);
            if (it == cur->ents.end())
            {
                n = mk(ftype::dir, j == path.size() ? mode : 0755, uid, gid < 0 ? uid : gid);
                n->parent = cur;
                cur->ents[nm] = n;
            }
            else
                n = it->second;
            cur = n.get();
            i = j;
        }
        return n;
    }
    inode_p put(std::string const & path, ftype t, std::string const & data, unsigned mode = 0644, int uid = 1000)
    {
        size_t s = path.rfind('/');
        inode_p d = s == 0 ? root : at(path.substr(0, s));
        if (!d)
            d = mkdirs(path.substr(0, s), 0755, uid);
        auto n = mk(t, mode, uid, uid);
        n->data = data;
        n->parent = d.get();
        n->synced = data;
        n->has_synced = true;
        d->ents[path.substr(s + 1)] = n;
        return n;
    }
    inode_p file(std::string const & path, std::string const & data, unsigned mode = 0644, int uid = 1000)
    {
        return put(path, ftype::reg, data, mode, uid);
    }

    // ---- snapshots ----
    struct entry
    {
        ftype type;
        unsigned mode;
        int uid;
        std::string data;
        uint64_t ino;
        bool same(entry const & o) const { return type == o.type && mode == o.mode && uid == o.uid && (type == ftype::dir || data == o.data); }
    };
    using snap = std::map<std::string, entry>;
    snap snapshot(std::string const & from = "/") const
    {
        snap s;
        if (auto n = at(from, false))
            walk(*n, from == "/" ? "" : from, s);
        return s;
    }
    // deep copy (for reference runs)
    static inode_p clone(inode const & n, inode * parent)
    {
        auto c = std::make_shared<inode>(n);
        c->ents.clear();
        c->parent = parent ? parent : c.get();
        for (auto & [k, e] : n.ents)
            c->ents[k] = clone(*e, c.get());
        return c;
    }

private:
    void walk(inode const & n, std::string const & p, snap & s) const
    {
        s[p.empty() ? "/" : p] = entry{n.type, n.mode, n.uid, n.data, n.ino};
        for (auto & [k, e] : n.ents)
            walk(*e, p + "/" + k, s);
    }
};

inline char const * type_name(ftype t)
{
    switch (t)
    {
    case ftype::reg: return "file";
    case ftype::dir: return "dir";
    case ftype::lnk: return "link";
    case ftype::fifo: return "fifo";
    case ftype::chr: return "device";
    default: return "socket";
    }
}
} // namespace sim
