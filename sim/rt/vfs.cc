// In-memory file system served for every path below /sim, reached by interposing libc.
#include "internal.h"
#include <algorithm>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <poll.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/uio.h>
#include <unistd.h>
#include <unordered_map>

namespace sim { namespace vfs {

NodeP root;
uint64_t capacity = 0, dirSalt = 0, mutationCount = 0;
bool denyWrites = false, captureCrash = false;
std::vector<Snap> snaps;
int maxSnaps = 400;
uint64_t tag = 0, scopeMutations = 0;
static uint64_t inoNext = 2;
static const int FDBASE = 0x400000;

struct OpenFile {
    NodeP node; int64_t pos = 0; int flags = 0; std::string path; bool dirty = false;
    uint64_t firstWrite = 0;
};
static std::map<int, OpenFile> fds;
static int fdNext = FDBASE;
static std::unordered_map<FILE *, int> files;
struct Dir { int fd; std::vector<std::pair<std::string, NodeP>> ents; size_t pos = 0; struct dirent d; };
static std::map<void *, Dir *> dirs;

static NodeP newNode(bool dir) {
    auto n = std::make_shared<Node>();
    n->dir = dir; n->ino = inoNext++;
    if(!dir) n->data = std::make_shared<std::string>();
    return n;
}
void reset() {
    RT rt;
    root = newNode(true); fds.clear(); snaps.clear(); capacity = 0; mutationCount = 0; denyWrites = false; captureCrash = false; tag = scopeMutations = 0;
}
NodeP clone(const NodeP & n) {
    RT rt;
    if(!n) return n;
    auto c = std::make_shared<Node>();
    c->dir = n->dir; c->data = n->data; c->ino = n->ino;
    for(auto & k : n->kids) c->kids.emplace_hint(c->kids.end(), k.first, clone(k.second));
    return c;
}
uint64_t digest(const NodeP & n) {
    RT rt;
    if(!n) return 1;
    uint64_t h = n->dir ? 11 : 13;
    if(n->data) h = hashBytes(n->data->data(), n->data->size(), h + n->data->size());
    for(auto & k : n->kids) h = mix(h, mix(hashBytes(k.first.data(), k.first.size()), digest(k.second)));
    return h;
}
static uint64_t used(const NodeP & n) {
    uint64_t u = n->dir ? 1 : n->data->size();
    for(auto & k : n->kids) u += used(k.second);
    return u;
}
static void splitPath(const std::string & p, std::vector<std::string> & out) {
    size_t i = 0;
    while(i < p.size()) {
        size_t j = p.find('/', i);
        if(j == std::string::npos) j = p.size();
        std::string c = p.substr(i, j - i);
        if(c == "..") { if(!out.empty()) out.pop_back(); }
        else if(!c.empty() && c != ".") out.push_back(c);
        i = j + 1;
    }
}
bool mine(const char * p) {
    if(!p) return false;
    while(p[0] == '/' && p[1] == '/') ++p;
    return strncmp(p, "/sim", 4) == 0 && (p[4] == 0 || p[4] == '/');
}
// resolves components relative to /sim; err = ENOENT / ENOTDIR
static NodeP walk(const std::vector<std::string> & c, size_t n, int & err) {
    NodeP cur = root;
    for(size_t i = 1; i < n; ++i) {                 // c[0] == "sim"
        if(!cur->dir) { err = ENOTDIR; return nullptr; }
        auto it = cur->kids.find(c[i]);
        if(it == cur->kids.end()) { err = ENOENT; return nullptr; }
        cur = it->second;
    }
    err = 0;
    return cur;
}
struct Loc { NodeP parent, node; std::string name; int err = 0; std::string path; };
static Loc locate(const std::string & path) {
    Loc l; l.path = path;
    std::vector<std::string> c; splitPath(path, c);
    if(c.empty() || c[0] != "sim") { l.err = ENOENT; return l; }
    if(c.size() == 1) { l.node = root; l.name = ""; return l; }
    bool trailing = path.size() && path.back() == '/';
    int e = 0;
    NodeP par = walk(c, c.size() - 1, e);
    if(!par) { l.err = e; return l; }
    if(!par->dir) { l.err = ENOTDIR; return l; }
    if(c.back().size() > 255) { l.err = ENAMETOOLONG; return l; }
    l.parent = par; l.name = c.back();
    auto it = par->kids.find(l.name);
    if(it == par->kids.end()) l.err = ENOENT;
    else { l.node = it->second; if(trailing && !l.node->dir) { l.node = nullptr; l.err = ENOTDIR; } }
    return l;
}
NodeP lookup(const std::string & p) { RT rt; return locate(p).node; }
void list(const NodeP & n, const std::string & prefix, std::vector<std::string> & out) {
    RT rt;
    if(!n) return;
    for(auto & k : n->kids) { out.push_back(prefix + "/" + k.first); list(k.second, prefix + "/" + k.first, out); }
}
std::string dump(const NodeP & n) {
    RT rt;
    std::vector<std::string> v; list(n, "", v);
    std::string s;
    for(auto & p : v) s += p + " ";
    return s;
}
uint64_t used() { RT rt; return used(root); }
NodeP emptyDir() { RT rt; return newNode(true); }
uint64_t openFds() { return fds.size(); }
bool inUse(const NodeP & n) { for(auto & f : fds) if(f.second.node == n) return true; return false; }

static void snapshot(uint64_t torn) {
    if(!captureCrash || int(snaps.size()) >= maxSnaps) return;
    snaps.push_back(Snap{currentScope(), scopeMutations, torn, clone(root), tag});
}
void mutated(const char * op, const std::string & path) {
    if(denyWrites) fail("read-only-store-changed", std::string("mutating ") + op + " on " + path + " through a read-only handle");
    ++mutationCount; ++scopeMutations; ++rec->mutations;
    note(mix(hashBytes(op, strlen(op)), hashBytes(path.data(), path.size())));
    snapshot(0);
}
static void willMutate(const char * op, const std::string & path) {
    if(denyWrites) fail("read-only-store-changed", std::string("mutating ") + op + " on " + path + " through a read-only handle");
}

static const uint64_t M_STAT = bit(F_EIO) | bit(F_EACCES) | bit(F_ESTALE);
static const uint64_t M_OPENR = bit(F_EIO) | bit(F_EACCES) | bit(F_EMFILE) | bit(F_EINTR) | bit(F_ESTALE);
static const uint64_t M_OPENW = bit(F_EIO) | bit(F_EACCES) | bit(F_EMFILE) | bit(F_ENOSPC) | bit(F_EINTR);
static const uint64_t M_READ = bit(F_EIO) | bit(F_EINTR) | bit(F_SHORT) | bit(F_ESTALE);
static const uint64_t M_WRITE = bit(F_EIO) | bit(F_ENOSPC) | bit(F_EINTR) | bit(F_SHORT);
static const uint64_t M_DIRW = bit(F_EIO) | bit(F_EACCES) | bit(F_ENOSPC);
static const uint64_t M_RM = bit(F_EIO) | bit(F_EACCES);
static const uint64_t M_DIRR = bit(F_EIO) | bit(F_EACCES) | bit(F_EMFILE);

static int toErrno(uint32_t k) {
    switch(k) {
        case F_ENOSPC: case F_CLOSE_LOSS: return k == F_ENOSPC ? ENOSPC : EIO;
        case F_EACCES: return EACCES; case F_EMFILE: return EMFILE; case F_EINTR: return EINTR;
        case F_ESTALE: return ESTALE; default: return EIO;
    }
}
// start of every simulated system call
static void enter(const char * op, const std::string & path) {
    if(!managed()) return;
    ++rec->ioOps;
    note(mix(hashBytes(op, strlen(op)), hashBytes(path.data(), path.size())));
    yieldPoint(1);
    stallPoint();
}
#define FAULT(mask) { uint64_t prm_; uint32_t k_ = decideFault(mask, prm_, 0); if(k_) { errno = toErrno(k_); return -1; } }
#define FAULTP(mask) { uint64_t prm_; uint32_t k_ = decideFault(mask, prm_, 0); if(k_) { errno = toErrno(k_); return nullptr; } }

static void fillStat(const NodeP & n, struct stat * st) {
    memset(st, 0, sizeof *st);
    st->st_ino = n->ino; st->st_dev = 77; st->st_nlink = n->dir ? 2 : 1;
    st->st_mode = n->dir ? (S_IFDIR | 0755) : (S_IFREG | 0644);
    st->st_size = n->dir ? 4096 : int64_t(n->data->size());
    st->st_blksize = 4096; st->st_blocks = (st->st_size + 511) / 512;
    st->st_mtime = st->st_atime = st->st_ctime = 1700000000;
}
static bool noSpace() {
    if(capacity && used(root) >= capacity) { ++rec->faults[F_FULL]; return true; }
    return false;
}

static int vOpen(const std::string & path, int flags) {
    enter("open", path);
    RT rt_;  // no preemption inside
    bool wr = (flags & O_ACCMODE) != O_RDONLY;
    if(self) { --self->nofault; }
    uint64_t prm; uint32_t k = decideFault(wr || (flags & O_CREAT) ? M_OPENW : M_OPENR, prm, 0);
    if(self) { ++self->nofault; }
    Loc l = locate(path);
    if(!l.node && l.err != ENOENT) { errno = l.err; return -1; }
    if(!l.node && (!(flags & O_CREAT) || !l.parent)) { errno = ENOENT; return -1; }
    if(k) { errno = toErrno(k); return -1; }
    if(!l.node) {
        willMutate("create", path);
        if(noSpace()) { errno = ENOSPC; return -1; }
        l.node = newNode(false);
        l.parent->kids[l.name] = l.node;
        mutated("create", path);
    } else {
        if((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
        if(l.node->dir && wr) { errno = EISDIR; return -1; }
        if(!l.node->dir && (flags & O_DIRECTORY)) { errno = ENOTDIR; return -1; }
        if((flags & O_TRUNC) && wr && !l.node->dir) {
            if(l.node->data->size() || denyWrites) {
                willMutate("truncate", path);
                l.node->data = std::make_shared<std::string>();
                mutated("truncate", path);
            }
        }
    }
    OpenFile f; f.node = l.node; f.flags = flags; f.path = path;
    int fd = fdNext++;
    fds[fd] = f;
    return fd;
}
static OpenFile * get(int fd) { auto it = fds.find(fd); return it == fds.end() ? nullptr : &it->second; }

static ssize_t vRead(int fd, void * buf, size_t n, int64_t at, bool yield) {
    OpenFile * f = get(fd);
    if(!f) { errno = EBADF; return -1; }
    if(yield) enter("read", f->path);
    f = get(fd);
    if(!f) { errno = EBADF; return -1; }
    if(f->node->dir) { errno = EISDIR; return -1; }
    int64_t pos = at >= 0 ? at : f->pos;
    const std::string & d = *f->node->data;
    size_t avail = pos < int64_t(d.size()) ? d.size() - size_t(pos) : 0;
    size_t m = std::min(n, avail);
    uint64_t mask = M_READ; if(m < 2) mask &= ~bit(F_SHORT);
    uint64_t prm; uint32_t k = decideFault(mask, prm, m >= 2 ? m - 2 : 0);
    if(k == F_SHORT) m = size_t(prm) + 1;
    else if(k) { errno = toErrno(k); return -1; }
    memcpy(buf, d.data() + pos, m);
    if(at < 0) f->pos += int64_t(m);
    return ssize_t(m);
}
static void putBytes(OpenFile * f, int64_t pos, const char * p, size_t n) {
    auto nd = f->node->data.use_count() > 1 ? std::make_shared<std::string>(*f->node->data) : f->node->data;
    if(nd->size() < size_t(pos) + n) nd->resize(size_t(pos) + n, '\0');
    memcpy(&(*nd)[size_t(pos)], p, n);
    f->node->data = nd;
}
static ssize_t vWrite(int fd, const void * buf, size_t n, int64_t at, bool yield) {
    OpenFile * f = get(fd);
    if(!f) { errno = EBADF; return -1; }
    if(yield) enter("write", f->path);
    f = get(fd);
    if(!f || (f->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
    if(n == 0) return 0;
    uint64_t mask = M_WRITE; if(n < 2) mask &= ~bit(F_SHORT);
    uint64_t prm; uint32_t k = decideFault(mask, prm, n >= 2 ? n - 2 : 0);
    RT rt;
    size_t m = n; bool err = false;
    if(k == F_SHORT) m = size_t(prm) + 1;
    else if(k == F_EIO) { m = size_t(prm); err = true; }       // torn: a prefix reached the disk
    else if(k) { errno = toErrno(k); return -1; }
    if(capacity) {
        uint64_t u = used(root), fr = u < capacity ? capacity - u : 0;
        int64_t pos0 = at >= 0 ? at : (f->flags & O_APPEND) ? int64_t(f->node->data->size()) : f->pos;
        size_t inside = size_t(pos0) < f->node->data->size() ? f->node->data->size() - size_t(pos0) : 0;
        if(m > inside + fr) { m = inside + fr; ++rec->faults[F_FULL]; if(m == 0 && !err) { errno = ENOSPC; return -1; } }
    }
    int64_t pos = at >= 0 ? at : (f->flags & O_APPEND) ? int64_t(f->node->data->size()) : f->pos;
    if(m) {
        willMutate("write", f->path);
        if(captureCrash && m > 1) {
            size_t cut = 1 + size_t(mix(scopeMutations, m) % (m - 1));
            putBytes(f, pos, (const char *) buf, cut);
            snapshot(cut);
            putBytes(f, pos + int64_t(cut), (const char *) buf + cut, m - cut);
        } else putBytes(f, pos, (const char *) buf, m);
        f->dirty = true;
        mutated("write", f->path);
    }
    if(err) { errno = EIO; return -1; }
    if(at < 0) f->pos = pos + int64_t(m);
    return ssize_t(m);
}
static int64_t vSeek(int fd, int64_t off, int wh) {
    OpenFile * f = get(fd);
    if(!f) { errno = EBADF; return -1; }
    int64_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? f->pos : int64_t(f->node->dir ? 0 : f->node->data->size());
    if(b + off < 0) { errno = EINVAL; return -1; }
    if(wh == SEEK_END) FAULT(bit(F_ESTALE));
    return f->pos = b + off;
}
static int vClose(int fd) {
    OpenFile * f = get(fd);
    if(!f) { errno = EBADF; return -1; }
    bool dirty = f->dirty; NodeP n = f->node; std::string path = f->path;
    uint32_t k = 0; uint64_t prm = 0;
    if(dirty) k = decideFault(bit(F_CLOSE_LOSS), prm, n->data->size());
    RT rt;
    fds.erase(fd);
    if(k) {      // delayed write-back failed: only a prefix of the file made it
        n->data = std::make_shared<std::string>(n->data->substr(0, prm));
        mutated("close-loss", path);
        errno = prm & 1 ? EIO : ENOSPC;
        return -1;
    }
    return 0;
}
static int vStat(const std::string & p, struct stat * st) {
    enter("stat", p);
    FAULT(M_STAT);
    RT rt;
    Loc l = locate(p);
    if(!l.node) { errno = l.err; return -1; }
    fillStat(l.node, st);
    return 0;
}
static int vMkdir(const std::string & p) {
    enter("mkdir", p);
    { RT rt; Loc l = locate(p);
      if(l.node) { errno = EEXIST; return -1; }
      if(!l.parent) { errno = l.err; return -1; } }
    FAULT(M_DIRW);
    RT rt;
    Loc l = locate(p);
    if(noSpace()) { errno = ENOSPC; return -1; }
    willMutate("mkdir", p);
    l.parent->kids[l.name] = newNode(true);
    mutated("mkdir", p);
    return 0;
}
static int vUnlink(const std::string & p, bool dir) {
    enter(dir ? "rmdir" : "unlink", p);
    { RT rt; Loc l = locate(p);
      if(!l.node) { errno = l.err; return -1; }
      if(!l.parent) { errno = EBUSY; return -1; }
      if(dir) { if(!l.node->dir) { errno = ENOTDIR; return -1; } if(!l.node->kids.empty()) { errno = ENOTEMPTY; return -1; } }
      else if(l.node->dir) { errno = EISDIR; return -1; } }
    FAULT(M_RM);
    RT rt;
    Loc l = locate(p);
    willMutate(dir ? "rmdir" : "unlink", p);
    l.parent->kids.erase(l.name);
    mutated(dir ? "rmdir" : "unlink", p);
    return 0;
}
static bool contains(const NodeP & a, const NodeP & b) {
    if(a == b) return true;
    for(auto & k : a->kids) if(contains(k.second, b)) return true;
    return false;
}
static int vRename(const std::string & a, const std::string & b, bool noReplace) {
    enter("rename", a);
    FAULT(M_DIRW);
    RT rt;
    Loc x = locate(a), y = locate(b);
    if(!x.node) { errno = x.err; return -1; }
    if(!y.parent) { errno = y.err ? y.err : EBUSY; return -1; }
    if(!x.parent) { errno = EBUSY; return -1; }
    if(y.node == x.node) return 0;
    if(y.node) {
        if(noReplace) { errno = EEXIST; return -1; }
        if(y.node->dir != x.node->dir) { errno = y.node->dir ? EISDIR : ENOTDIR; return -1; }
        if(y.node->dir && !y.node->kids.empty()) { errno = ENOTEMPTY; return -1; }
    }
    if(x.node->dir && contains(x.node, y.parent)) { errno = EINVAL; return -1; }
    willMutate("rename", a);
    x.parent->kids.erase(x.name);
    y.parent->kids[y.name] = x.node;
    mutated("rename", a + " -> " + b);
    return 0;
}
static int vTruncate(const NodeP & n, const std::string & p, int64_t len) {
    FAULT(M_WRITE & ~bit(F_SHORT) & ~bit(F_EINTR));
    RT rt;
    willMutate("truncate", p);
    auto d = std::make_shared<std::string>(*n->data);
    d->resize(size_t(len), '\0');
    n->data = d;
    mutated("truncate", p);
    return 0;
}
static int vAccess(const std::string & p) {
    struct stat st;
    return vStat(p, &st);
}
static Dir * openDirFd(int fd) {
    OpenFile * f = get(fd);
    if(!f || !f->node->dir) { errno = ENOTDIR; return nullptr; }
    Dir * d = new Dir;
    d->fd = fd;
    d->ents.push_back({".", f->node}); d->ents.push_back({"..", root});
    for(auto & k : f->node->kids) d->ents.push_back({k.first, k.second});
    if(dirSalt) {
        std::sort(d->ents.begin() + 2, d->ents.end(), [](const auto & a, const auto & b) {
            return mix(dirSalt, hashBytes(a.first.data(), a.first.size())) < mix(dirSalt, hashBytes(b.first.data(), b.first.size()));
        });
    }
    dirs[d] = d;
    return d;
}
// path of an *at() call; false = not ours
static bool atPath(int dirfd, const char * p, std::string & out) {
    if(!p) return false;
    if(p[0] == '/') { if(!mine(p)) return false; out = p; return true; }
    OpenFile * f = get(dirfd);
    if(!f) return false;
    out = f->path + "/" + p;
    return true;
}
static int parseMode(const char * m) {
    int fl = m[0] == 'r' ? O_RDONLY : m[0] == 'w' ? (O_WRONLY | O_CREAT | O_TRUNC) : (O_WRONLY | O_CREAT | O_APPEND);
    if(strchr(m, '+')) fl = (fl & ~O_ACCMODE) | O_RDWR;
    if(strchr(m, 'x')) fl |= O_EXCL;
    return fl;
}
static ssize_t ckRead(void * c, char * b, size_t n) { ssize_t r = vRead(int(intptr_t(c)), b, n, -1, false); return r; }
static ssize_t ckWrite(void * c, const char * b, size_t n) { ssize_t r = vWrite(int(intptr_t(c)), b, n, -1, false); return r < 0 ? 0 : r; }
static int ckSeek(void * c, off64_t * o, int w) { int64_t r = vSeek(int(intptr_t(c)), *o, w); if(r < 0) return -1; *o = r; return 0; }
static int ckClose(void * c) { return vClose(int(intptr_t(c))); }
static FILE * fromFd(int fd, const char * mode) {
    RT rt;
    cookie_io_functions_t io{ckRead, ckWrite, ckSeek, ckClose};
    FILE * f = fopencookie((void *) intptr_t(fd), mode, io);
    if(f) files[f] = fd;
    return f;
}
static FILE * vFopen(const char * p, const char * mode) {
    int fd = vOpen(p, parseMode(mode));
    if(fd < 0) return nullptr;
    return fromFd(fd, mode);
}
// code under test must not touch the real file system
static bool escape(const char * op, const char * p) {
    if(managed()) fail("escaped-the-store", std::string(op) + " outside the store: " + (p ? p : "?"));
    return false;
}
static bool fake(int fd) { return fd >= FDBASE && fds.count(fd); }
}} // namespace

using namespace sim;
using namespace sim::vfs;

extern "C" {
#define WRITING(fl) (((fl) & O_ACCMODE) != O_RDONLY || ((fl) & (O_CREAT | O_TRUNC)))
static int doOpenat(int dfd, const char * p, int fl, mode_t m) { NA na_;
    std::string s;
    if(atPath(dfd, p, s)) return vOpen(s, fl);
    if(WRITING(fl) && strncmp(p, "/dev/", 5) && strncmp(p, "/proc/", 6)) escape("open", p);
    return REAL(openat)(dfd, p, fl, m);
}
#define MODEARG mode_t m = 0; if(fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
int open(const char * p, int fl, ...) { NA na_; MODEARG return doOpenat(AT_FDCWD, p, fl, m); }
int open64(const char * p, int fl, ...) { NA na_; MODEARG return doOpenat(AT_FDCWD, p, fl, m); }
int openat(int d, const char * p, int fl, ...) { NA na_;
    MODEARG
    std::string s;
    if(atPath(d, p, s)) return vOpen(s, fl);
    if(WRITING(fl) && strncmp(p, "/dev/", 5) && strncmp(p, "/proc/", 6)) escape("open", p);
    static auto f = (int (*)(int, const char *, int, mode_t)) realSym("openat");
    return f(d, p, fl, m);
}
int openat64(int d, const char * p, int fl, ...) { NA na_; MODEARG return doOpenat(d, p, fl, m); }
int __openat_2(int d, const char * p, int fl) { NA na_; return doOpenat(d, p, fl, 0); }
int __openat64_2(int d, const char * p, int fl) { NA na_; return doOpenat(d, p, fl, 0); }
int __open_2(const char * p, int fl) { NA na_; return doOpenat(AT_FDCWD, p, fl, 0); }
int __open64_2(const char * p, int fl) { NA na_; return doOpenat(AT_FDCWD, p, fl, 0); }
int creat(const char * p, mode_t m) { NA na_; return doOpenat(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char * p, mode_t m) { NA na_; return creat(p, m); }
FILE * fopen(const char * p, const char * mode) { NA na_;
    if(mine(p)) return vFopen(p, mode);
    if(mode[0] != 'r' && strncmp(p, "/dev/", 5)) escape("fopen", p);
    return REAL(fopen)(p, mode);
}
FILE * fopen64(const char * p, const char * mode) { NA na_;
    if(mine(p)) return vFopen(p, mode);
    if(mode[0] != 'r' && strncmp(p, "/dev/", 5)) escape("fopen", p);
    return REAL(fopen64)(p, mode);
}
FILE * fdopen(int fd, const char * mode) noexcept { NA na_;
    if(fake(fd)) return fromFd(fd, mode);
    return REAL(fdopen)(fd, mode);
}
int fclose(FILE * f) { NA na_;
    auto it = files.find(f);
    if(it != files.end()) {
        OpenFile * o = get(it->second);
        enter("close", o ? o->path : std::string());
        files.erase(f);
        int saved = errno;
        errno = 0;
        int r = REAL(fclose)(f);
        if(r == 0) errno = saved; else if(errno == 0 || errno == EINTR) errno = EIO;
        return r;
    }
    return REAL(fclose)(f);
}
int fileno(FILE * f) noexcept { NA na_;
    auto it = files.find(f);
    if(it != files.end()) return it->second;
    return REAL(fileno)(f);
}
int fileno_unlocked(FILE * f) noexcept { NA na_; return fileno(f); }
ssize_t read(int fd, void * b, size_t n) { NA na_; return fake(fd) ? vRead(fd, b, n, -1, true) : REAL(read)(fd, b, n); }
ssize_t pread(int fd, void * b, size_t n, off_t o) { NA na_; return fake(fd) ? vRead(fd, b, n, o, true) : REAL(pread)(fd, b, n, o); }
ssize_t pread64(int fd, void * b, size_t n, off64_t o) { NA na_; return fake(fd) ? vRead(fd, b, n, o, true) : REAL(pread64)(fd, b, n, o); }
ssize_t write(int fd, const void * b, size_t n) { NA na_; return fake(fd) ? vWrite(fd, b, n, -1, true) : REAL(write)(fd, b, n); }
ssize_t pwrite(int fd, const void * b, size_t n, off_t o) { NA na_; return fake(fd) ? vWrite(fd, b, n, o, true) : REAL(pwrite)(fd, b, n, o); }
ssize_t pwrite64(int fd, const void * b, size_t n, off64_t o) { NA na_; return fake(fd) ? vWrite(fd, b, n, o, true) : REAL(pwrite64)(fd, b, n, o); }
ssize_t readv(int fd, const struct iovec * v, int c) { NA na_;
    if(!fake(fd)) return REAL(readv)(fd, v, c);
    ssize_t t = 0;
    for(int i = 0; i < c; ++i) {
        if(!v[i].iov_len) continue;
        ssize_t r = vRead(fd, v[i].iov_base, v[i].iov_len, -1, t == 0);
        if(r < 0) return t ? t : r;
        t += r;
        if(size_t(r) < v[i].iov_len) break;
    }
    return t;
}
ssize_t writev(int fd, const struct iovec * v, int c) { NA na_;
    if(!fake(fd)) return REAL(writev)(fd, v, c);
    std::string all;
    { RT rt; for(int i = 0; i < c; ++i) all.append((const char *) v[i].iov_base, v[i].iov_len); }
    return vWrite(fd, all.data(), all.size(), -1, true);
}
off_t lseek(int fd, off_t o, int w) noexcept { NA na_; return fake(fd) ? vSeek(fd, o, w) : REAL(lseek)(fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) noexcept { NA na_; return fake(fd) ? vSeek(fd, o, w) : REAL(lseek64)(fd, o, w); }
int close(int fd) { NA na_;
    if(!fake(fd)) return REAL(close)(fd);
    enter("close", get(fd)->path);
    return vClose(fd);
}
int stat(const char * p, struct stat * st) noexcept { NA na_; return mine(p) ? vStat(p, st) : REAL(stat)(p, st); }
int lstat(const char * p, struct stat * st) noexcept { NA na_; return mine(p) ? vStat(p, st) : REAL(lstat)(p, st); }
int stat64(const char * p, struct stat64 * st) noexcept { NA na_; return mine(p) ? vStat(p, (struct stat *) st) : REAL(stat64)(p, st); }
int lstat64(const char * p, struct stat64 * st) noexcept { NA na_; return mine(p) ? vStat(p, (struct stat *) st) : REAL(lstat64)(p, st); }
static int vFstat(int fd, struct stat * st) { NA na_;
    OpenFile * f = get(fd);
    enter("fstat", f->path);
    FAULT(M_STAT & ~bit(F_EACCES));
    fillStat(get(fd)->node, st);
    return 0;
}
int fstat(int fd, struct stat * st) noexcept { NA na_; return fake(fd) ? vFstat(fd, st) : REAL(fstat)(fd, st); }
int fstat64(int fd, struct stat64 * st) noexcept { NA na_; return fake(fd) ? vFstat(fd, (struct stat *) st) : REAL(fstat64)(fd, st); }
int fstatat(int d, const char * p, struct stat * st, int fl) noexcept { NA na_;
    std::string s;
    if(p && !*p && fake(d)) return vFstat(d, st);
    return atPath(d, p, s) ? vStat(s, st) : REAL(fstatat)(d, p, st, fl);
}
int fstatat64(int d, const char * p, struct stat64 * st, int fl) noexcept { NA na_;
    std::string s;
    if(p && !*p && fake(d)) return vFstat(d, (struct stat *) st);
    return atPath(d, p, s) ? vStat(s, (struct stat *) st) : REAL(fstatat64)(d, p, st, fl);
}
int statx(int d, const char * p, int fl, unsigned m, struct statx * x) noexcept { NA na_;
    std::string s;
    if(atPath(d, p, s) || fake(d)) { errno = ENOSYS; return -1; }
    return REAL(statx)(d, p, fl, m, x);
}
int access(const char * p, int m) noexcept { NA na_; return mine(p) ? vAccess(p) : REAL(access)(p, m); }
int faccessat(int d, const char * p, int m, int fl) noexcept { NA na_; std::string s; return atPath(d, p, s) ? vAccess(s) : REAL(faccessat)(d, p, m, fl); }
int euidaccess(const char * p, int m) noexcept { NA na_; return mine(p) ? vAccess(p) : REAL(euidaccess)(p, m); }
int mkdir(const char * p, mode_t m) noexcept { NA na_; if(mine(p)) return vMkdir(p); escape("mkdir", p); return REAL(mkdir)(p, m); }
int mkdirat(int d, const char * p, mode_t m) noexcept { NA na_; std::string s; if(atPath(d, p, s)) return vMkdir(s); escape("mkdir", p); return REAL(mkdirat)(d, p, m); }
int rmdir(const char * p) noexcept { NA na_; if(mine(p)) return vUnlink(p, true); escape("rmdir", p); return REAL(rmdir)(p); }
int unlink(const char * p) noexcept { NA na_; if(mine(p)) return vUnlink(p, false); escape("unlink", p); return REAL(unlink)(p); }
int unlinkat(int d, const char * p, int fl) noexcept { NA na_; std::string s; if(atPath(d, p, s)) return vUnlink(s, fl & AT_REMOVEDIR); escape("unlink", p); return REAL(unlinkat)(d, p, fl); }
int remove(const char * p) noexcept { NA na_;
    if(!mine(p)) { escape("remove", p); return REAL(remove)(p); }
    int e; bool dir = false;
    { RT rt; Loc l = locate(p); if(!l.node) { e = l.err; errno = e; enter("remove", p); errno = e; return -1; } dir = l.node->dir; }
    return vUnlink(p, dir);
}
int rename(const char * a, const char * b) noexcept { NA na_; if(mine(a) && mine(b)) return vRename(a, b, false); escape("rename", b); return REAL(rename)(a, b); }
int renameat(int d, const char * a, int e, const char * b) noexcept { NA na_; std::string s, t; if(atPath(d, a, s) && atPath(e, b, t)) return vRename(s, t, false); escape("rename", b); return REAL(renameat)(d, a, e, b); }
int renameat2(int d, const char * a, int e, const char * b, unsigned fl) noexcept { NA na_; std::string s, t; if(atPath(d, a, s) && atPath(e, b, t)) return vRename(s, t, fl & 1); escape("rename", b); return REAL(renameat2)(d, a, e, b, fl); }
int link(const char * a, const char * b) noexcept { NA na_;
    if(!mine(b)) { escape("link", b); return REAL(link)(a, b); }
    enter("link", b);
    FAULT(M_DIRW);
    RT rt;
    Loc x = locate(a), y = locate(b);
    if(!x.node) { errno = x.err; return -1; }
    if(y.node) { errno = EEXIST; return -1; }
    if(!y.parent) { errno = y.err; return -1; }
    y.parent->kids[y.name] = x.node;
    mutated("link", b);
    return 0;
}
int symlink(const char * a, const char * b) noexcept { if(mine(b)) { NA na_; errno = EPERM; return -1; } escape("symlink", b); return REAL(symlink)(a, b); }
ssize_t readlink(const char * p, char * b, size_t n) noexcept { NA na_;
    if(mine(p)) { RT rt; Loc l = locate(p); errno = l.node ? EINVAL : l.err; return -1; }
    return REAL(readlink)(p, b, n);
}
char * realpath(const char * p, char * out) noexcept { NA na_;
    if(!mine(p)) return REAL(realpath)(p, out);
    enter("realpath", p);
    FAULTP(M_STAT);
    RT rt;
    std::vector<std::string> c; splitPath(p, c);
    int e; if(!walk(c, c.size(), e)) { errno = e; return nullptr; }
    std::string s; for(auto & x : c) s += "/" + x;
    if(!out) out = (char *) malloc(PATH_MAX);
    strcpy(out, s.c_str());
    return out;
}
DIR * opendir(const char * p) { NA na_;
    if(!mine(p)) return REAL(opendir)(p);
    enter("opendir", p);
    FAULTP(M_DIRR);
    RT rt;
    Loc l = locate(p);
    if(!l.node) { errno = l.err; return nullptr; }
    if(!l.node->dir) { errno = ENOTDIR; return nullptr; }
    OpenFile f; f.node = l.node; f.path = p;
    int fd = fdNext++;
    fds[fd] = f;
    return (DIR *) openDirFd(fd);
}
DIR * fdopendir(int fd) { NA na_;
    if(!fake(fd)) return REAL(fdopendir)(fd);
    FAULTP(M_DIRR);
    RT rt;
    return (DIR *) openDirFd(fd);
}
static struct dirent * nextEnt(Dir * d) { NA na_;
    uint64_t prm; uint32_t k = decideFault(bit(F_EIO), prm, 0);
    if(k) { errno = EIO; return nullptr; }
    if(d->pos >= d->ents.size()) return nullptr;
    auto & e = d->ents[d->pos++];
    memset(&d->d, 0, sizeof d->d);
    d->d.d_ino = e.second->ino; d->d.d_type = e.second->dir ? DT_DIR : DT_REG; d->d.d_reclen = sizeof d->d;
    d->d.d_off = long(d->pos);
    strncpy(d->d.d_name, e.first.c_str(), sizeof d->d.d_name - 1);
    return &d->d;
}
struct dirent * readdir(DIR * p) { NA na_; if(!dirs.count(p)) return REAL(readdir)(p); enter("readdir", ""); return nextEnt((Dir *) p); }
struct dirent64 * readdir64(DIR * p) { NA na_; if(!dirs.count(p)) return REAL(readdir64)(p); enter("readdir", ""); return (struct dirent64 *) nextEnt((Dir *) p); }
void rewinddir(DIR * p) noexcept { NA na_; if(dirs.count(p)) ((Dir *) p)->pos = 0; else REAL(rewinddir)(p); }
int dirfd(DIR * p) noexcept { NA na_; return dirs.count(p) ? ((Dir *) p)->fd : REAL(dirfd)(p); }
int closedir(DIR * p) { NA na_;
    auto it = dirs.find(p);
    if(it == dirs.end()) return REAL(closedir)(p);
    RT rt;
    Dir * d = it->second; dirs.erase(it); fds.erase(d->fd); delete d;
    return 0;
}
int ftruncate(int fd, off_t l) noexcept { NA na_; if(!fake(fd)) return REAL(ftruncate)(fd, l); OpenFile * f = get(fd); enter("truncate", f->path); f->dirty = true; return vTruncate(f->node, f->path, l); }
int ftruncate64(int fd, off64_t l) noexcept { NA na_; return fake(fd) ? ftruncate(fd, l) : REAL(ftruncate64)(fd, l); }
int truncate(const char * p, off_t l) noexcept { NA na_;
    if(!mine(p)) { escape("truncate", p); return REAL(truncate)(p, l); }
    enter("truncate", p);
    NodeP n; { RT rt; Loc q = locate(p); if(!q.node) { errno = q.err; return -1; } if(q.node->dir) { errno = EISDIR; return -1; } n = q.node; }
    return vTruncate(n, p, l);
}
int truncate64(const char * p, off64_t l) noexcept { NA na_; return truncate(p, l); }
int fsync(int fd) { NA na_; if(!fake(fd)) return REAL(fsync)(fd); enter("fsync", get(fd)->path); FAULT(bit(F_EIO) | bit(F_ENOSPC)); return 0; }
int fdatasync(int fd) { NA na_; return fake(fd) ? fsync(fd) : REAL(fdatasync)(fd); }
int syncfs(int fd) noexcept { NA na_; return fake(fd) ? 0 : REAL(syncfs)(fd); }
int posix_fadvise(int fd, off_t a, off_t b, int c) noexcept { NA na_; return fake(fd) ? 0 : REAL(posix_fadvise)(fd, a, b, c); }
int posix_fallocate(int fd, off_t a, off_t b) { NA na_; return fake(fd) ? EOPNOTSUPP : REAL(posix_fallocate)(fd, a, b); }
int fallocate(int fd, int m, off_t a, off_t b) { if(fake(fd)) { NA na_; errno = EOPNOTSUPP; return -1; } return REAL(fallocate)(fd, m, a, b); }
int ioctl(int fd, unsigned long req, ...) noexcept { NA na_;
    va_list ap; va_start(ap, req); void * a = va_arg(ap, void *); va_end(ap);
    if(fake(fd)) {
        OpenFile * f = get(fd);
        if(req == FIONREAD && !f->node->dir) { int64_t k = int64_t(f->node->data->size()) - f->pos; *(int *) a = k > 0 ? int(k) : 0; return 0; }
        errno = ENOTTY; return -1;
    }
    return REAL(ioctl)(fd, req, a);
}
int poll(struct pollfd * p, nfds_t n, int t) { NA na_;
    if(n == 1 && fake(p->fd)) { p->revents = p->events & (POLLIN | POLLOUT); return 1; }
    return REAL(poll)(p, n, t);
}
int fcntl(int fd, int cmd, ...) { NA na_;
    va_list ap; va_start(ap, cmd); void * a = va_arg(ap, void *); va_end(ap);
    if(fake(fd)) { if(cmd == F_GETFL) return get(fd)->flags & ~(O_CREAT | O_TRUNC | O_EXCL); return 0; }
    return REAL(fcntl)(fd, cmd, a);
}
int fcntl64(int fd, int cmd, ...) { NA na_;
    va_list ap; va_start(ap, cmd); void * a = va_arg(ap, void *); va_end(ap);
    if(fake(fd)) { if(cmd == F_GETFL) return get(fd)->flags & ~(O_CREAT | O_TRUNC | O_EXCL); return 0; }
    static auto f = (int (*)(int, int, void *)) realSym("fcntl64");
    return f(fd, cmd, a);
}
int flock(int fd, int op) noexcept { NA na_; return fake(fd) ? 0 : REAL(flock)(fd, op); }
int chmod(const char * p, mode_t m) noexcept { NA na_; if(mine(p)) return 0; escape("chmod", p); return REAL(chmod)(p, m); }
int fchmod(int fd, mode_t m) noexcept { NA na_; return fake(fd) ? 0 : REAL(fchmod)(fd, m); }
int fchmodat(int d, const char * p, mode_t m, int f) noexcept { NA na_; std::string s; if(atPath(d, p, s)) return 0; escape("chmod", p); return REAL(fchmodat)(d, p, m, f); }
int utimensat(int d, const char * p, const struct timespec * t, int f) noexcept { NA na_; std::string s; if((p && atPath(d, p, s)) || fake(d)) return 0; return REAL(utimensat)(d, p, t, f); }
int statvfs(const char * p, struct statvfs * v) noexcept { NA na_;
    if(!mine(p)) return REAL(statvfs)(p, v);
    memset(v, 0, sizeof *v); v->f_bsize = v->f_frsize = 4096; v->f_blocks = v->f_bfree = v->f_bavail = 1 << 20; return 0;
}
ssize_t sendfile(int o, int i, off_t * f, size_t n) noexcept { if(fake(o) || fake(i)) { NA na_; errno = ENOSYS; return -1; } return REAL(sendfile)(o, i, f, n); }
ssize_t sendfile64(int o, int i, off64_t * f, size_t n) noexcept { if(fake(o) || fake(i)) { NA na_; errno = ENOSYS; return -1; } return REAL(sendfile64)(o, i, f, n); }
ssize_t copy_file_range(int i, off64_t * a, int o, off64_t * b, size_t n, unsigned f) { if(fake(o) || fake(i)) { NA na_; errno = ENOSYS; return -1; } return REAL(copy_file_range)(i, a, o, b, n, f); }
int mkstemp(char * t) { NA na_;
    if(!mine(t)) { escape("mkstemp", t); return REAL(mkstemp)(t); }
    size_t n = strlen(t);
    for(int i = 0; i < 1000; ++i) {
        char b[8]; snprintf(b, sizeof b, "%06d", int(mix(mutationCount, i) % 1000000));
        memcpy(t + n - 6, b, 6);
        int fd = vOpen(t, O_CREAT | O_EXCL | O_RDWR);
        if(fd >= 0 || errno != EEXIST) return fd;
    }
    errno = EEXIST; return -1;
}
int mkostemp(char * t, int) { NA na_; return mkstemp(t); }
void * mmap(void * a, size_t n, int pr, int fl, int fd, off_t o) noexcept { NA na_;
    if(!fake(fd)) return REAL(mmap)(a, n, pr, fl, fd, o);
    if((fl & MAP_SHARED) && (pr & PROT_WRITE)) { errno = ENODEV; return MAP_FAILED; }
    OpenFile * f = get(fd);
    enter("mmap", f->path);
    char * m = (char *) REAL(mmap)(a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if(m == MAP_FAILED) return m;
    const std::string & d = *get(fd)->node->data;
    if(size_t(o) < d.size()) memcpy(m, d.data() + o, std::min(n, d.size() - size_t(o)));
    return m;
}
void * mmap64(void * a, size_t n, int pr, int fl, int fd, off64_t o) noexcept { NA na_; return mmap(a, n, pr, fl, fd, o); }
} // extern C
