// The simulated disk: every file operation of the code under test lands here.
// Data accepted by write() survives a process crash; anything still in a
// user-space buffer does not.
#include "rt.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

using namespace simrt;
using namespace sim;

namespace {
    const int MAXFD = 256;
    struct Fd {
        bool used;
        int ino;
        uint64_t pos;
        bool app, wr, rd;
        FILE* f;
    } fds[MAXFD];

    template <typename F>
    F real(const char* n)
    {
        return (F)dlsym(RTLD_NEXT, n);
    }

    std::string norm(const char* p)
    {
        // collapse // and ./ ; everything is relative to one simulated root
        Quiet quiet_here;
        std::string s;
        std::string in(p);
        size_t i = 0;
        while (i < in.size()) {
            if (in[i] == '/') {
                if (s.empty() || s.back() != '/')
                    s += '/';
                i++;
                continue;
            }
            size_t e = in.find('/', i);
            if (e == std::string::npos)
                e = in.size();
            std::string c = in.substr(i, e - i);
            i = e;
            if (c == ".") {
                if (i < in.size())
                    i++;
                continue;
            }
            s += c;
        }
        if (s.size() > 1 && s.back() == '/')
            s.pop_back();
        return s;
    }
    bool simpath(const char* p)
    {
        if (!in_run)
            return false;
        if (!p)
            return false;
        for (const char* pre : {"/proc/", "/sys/", "/dev/", "/etc/", "/usr/", "/lib"})
            if (!strncmp(p, pre, strlen(pre)))
                return false;
        return true;
    }
    int find(const std::string& p)
    {
        for (uint32_t i = 0; i < INODES; i++)
            if (R->ino[i].used && p == R->ino[i].path)
                return (int)i;
        return -1;
    }
    std::string parent(const std::string& p)
    {
        Quiet quiet_here;
        size_t k = p.rfind('/');
        if (k == std::string::npos)
            return "";
        if (k == 0)
            return "/";
        return p.substr(0, k);
    }
    bool dir_ok(const std::string& p)
    {
        if (p == "" || p == "/" || p == "." || p == "/tmp" || p == "..")
            return true;
        int i = find(p);
        return i >= 0 && R->ino[i].dir;
    }
    int create(const std::string& p, bool dir)
    {
        if (p.size() >= sizeof R->ino[0].path)
            return -1;
        for (uint32_t i = 0; i < INODES; i++)
            if (!R->ino[i].used) {
                Inode& n = R->ino[i];
                memset(&n, 0, sizeof n);
                n.used = 1;
                n.dir = dir;
                strcpy(n.path, p.c_str());
                return (int)i;
            }
        return -1;
    }
    bool grow(Inode& n, uint32_t need)
    {
        if (need <= n.cap)
            return true;
        uint32_t c = n.cap ? n.cap : 256;
        while (c < need)
            c *= 2;
        if (R->pool_n + c > DISK_POOL)
            return false;
        memcpy(R->pool + R->pool_n, R->pool + n.off, n.len);
        n.off = R->pool_n;
        n.cap = c;
        R->pool_n += c;
        return true;
    }
    bool isfd(int fd) { return in_run && fd >= 0 && fd < MAXFD && fds[fd].used; }

    int do_open(const char* path, int flags)
    {
        std::string p = norm(path);
        sys_point("open");
        uint32_t prm;
        if (fault(F_OPEN, &prm)) {
            static const int e[] = {EMFILE, EACCES, ENFILE, EIO, EINTR};
            errno = e[prm % 4];
            logf("open %s -> errno %d", p.c_str(), errno);
            return -1;
        }
        int i = find(p);
        if (i >= 0 && R->ino[i].dir) {
            errno = EISDIR;
            return -1;
        }
        if (i >= 0 && (flags & O_CREAT) && (flags & O_EXCL)) {
            errno = EEXIST;
            return -1;
        }
        if (i < 0) {
            if (!(flags & O_CREAT) || !dir_ok(parent(p))) {
                errno = ENOENT;
                return -1;
            }
            if (R->disk_full) {
                errno = ENOSPC;
                return -1;
            }
            i = create(p, false);
            if (i < 0) {
                errno = ENAMETOOLONG;
                return -1;
            }
        }
        if (flags & O_TRUNC)
            R->ino[i].len = 0;
        return i;
    }
    void bind(int fd, int ino, int flags, FILE* f)
    {
        Fd& d = fds[fd];
        race_forget(&d, sizeof d);
        d.used = true;
        d.ino = ino;
        d.pos = 0;
        d.app = flags & O_APPEND;
        int acc = flags & O_ACCMODE;
        d.wr = acc != O_RDONLY;
        d.rd = acc != O_WRONLY;
        d.f = f;
        logf("open %s fd%s", R->ino[ino].path, d.wr ? " w" : " r");
        sys_point("opened");
    }
    ssize_t do_write(int fd, const char* b, size_t n, bool at = false, uint64_t off = 0)
    {
        Fd& d = fds[fd];
        if (!d.wr) {
            errno = EBADF;
            return -1;
        }
        Inode& ino = R->ino[d.ino];
        race_access(&d, sizeof d, true);
        if (n == 0)
            return 0;
        // a crash may tear the write: an arbitrary prefix reaches the disk
        uint32_t prm = 0;
        bool crash = fault(F_CRASH, &prm);
        size_t m = n;
        if (crash)
            m = prm % (n + 1);
        else {
            if (fault(F_WRITE_EINTR)) {
                errno = EINTR;
                return -1;
            }
            if (fault(F_WRITE_EIO)) {
                errno = EIO;
                return -1;
            }
            if (fault(F_WRITE_ENOSPC, &prm)) {
                R->disk_left = prm % 3 && n ? prm % n : 0; // this very write fails
            }
            if (fault(F_WRITE_SHORT, &prm) && n > 1)
                m = 1 + prm % (n - 1);
        }
        if (R->disk_left >= 0 && (int64_t)m > R->disk_left) {
            m = (size_t)R->disk_left;
            if (m == 0 && !crash) {
                errno = ENOSPC;
                logf("write %s -> ENOSPC", ino.path);
                return -1;
            }
        }
        uint64_t p = at ? off : (d.app ? ino.len : d.pos);
        if (m) {
            if (!grow(ino, (uint32_t)(p + m))) {
                errno = ENOSPC;
                return -1;
            }
            if (p > ino.len)
                memset(R->pool + ino.off + ino.len, 0, p - ino.len);
            memcpy(R->pool + ino.off + p, b, m);
            if (p + m > ino.len)
                ino.len = (uint32_t)(p + m);
            if (!at)
                d.pos = p + m;
            if (R->disk_left >= 0)
                R->disk_left -= (int64_t)m;
        }
        logf("write %s %zu/%zu", ino.path, m, n);
        if (crash)
            crash_now();
        simrt_sync_point();
        return (ssize_t)m;
    }
    ssize_t do_read(int fd, char* b, size_t n, bool at = false, uint64_t off = 0)
    {
        Fd& d = fds[fd];
        if (!d.rd) {
            errno = EBADF;
            return -1;
        }
        sys_point("read");
        uint32_t prm;
        if (fault(F_READ_EINTR)) {
            errno = EINTR;
            return -1;
        }
        if (fault(F_READ_EIO)) {
            errno = EIO;
            return -1;
        }
        Inode& ino = R->ino[d.ino];
        uint64_t p = at ? off : d.pos;
        size_t m = p >= ino.len ? 0 : ino.len - p;
        if (m > n)
            m = n;
        if (m > 1 && fault(F_READ_SHORT, &prm))
            m = 1 + prm % (m - 1);
        memcpy(b, R->pool + ino.off + p, m);
        if (!at)
            d.pos += m;
        evu(m);
        return (ssize_t)m;
    }
    int do_mkdir(const char* path)
    {
        std::string p = norm(path);
        sys_point("mkdir");
        int i = find(p);
        if (i >= 0 || dir_ok(p)) {
            errno = EEXIST;
            return -1;
        }
        uint32_t prm;
        static int broken = 0; // a failure that lasts
        if (!(armed >> F_MKDIR & 1))
            broken = 0;
        if ((broken && !quiet) || fault(F_MKDIR, &prm)) {
            static const int e[] = {EACCES, ENOSPC, EROFS, EMLINK};
            if (broken)
                fault_again(F_MKDIR);
            errno = broken ? broken : e[prm % 4];
            if (!broken && prm / 4 % 3 == 0)
                broken = errno;
            logf("mkdir %s -> errno %d", p.c_str(), errno);
            return -1;
        }
        if (!dir_ok(parent(p))) {
            errno = ENOENT;
            return -1;
        }
        if (create(p, true) < 0) {
            errno = ENAMETOOLONG;
            return -1;
        }
        logf("mkdir %s", p.c_str());
        sys_point("mkdir2");
        return 0;
    }
    int do_stat(const char* path, struct stat* st)
    {
        std::string p = norm(path);
        memset(st, 0, sizeof *st);
        if (dir_ok(p)) {
            st->st_mode = S_IFDIR | 0755;
            st->st_nlink = 2;
            return 0;
        }
        int i = find(p);
        if (i < 0) {
            errno = ENOENT;
            return -1;
        }
        st->st_mode = S_IFREG | 0644;
        st->st_size = R->ino[i].len;
        st->st_nlink = 1;
        st->st_ino = i + 10;
        st->st_blksize = 4096;
        return 0;
    }
    int do_fstat(int fd, struct stat* st)
    {
        memset(st, 0, sizeof *st);
        st->st_mode = S_IFREG | 0644;
        st->st_size = R->ino[fds[fd].ino].len;
        st->st_nlink = 1;
        st->st_blksize = 4096;
        return 0;
    }
}

namespace simrt {
    void disk_reset()
    {
        for (uint32_t i = 0; i < INODES; i++)
            R->ino[i].used = 0;
        R->pool_n = 0;
        R->disk_left = -1;
        R->disk_full = 0;
        memset(fds, 0, sizeof fds);
    }
    void proc_reset_fds()
    {
        for (int i = 0; i < MAXFD; i++)
            if (fds[i].used) {
                fds[i].used = false;
                raw_close(i);
            }
    }
    void raw_close(int fd)
    {
        static int (*rc)(int) = nullptr;
        if (!rc)
            rc = real<int (*)(int)>("close");
        rc(fd);
    }
}

namespace sim {
    bool disk_exists(const std::string& p)
    {
        std::string n = norm(p.c_str());
        return dir_ok(n) || find(n) >= 0;
    }
    bool disk_read(const std::string& p, std::string& out)
    {
        int i = find(norm(p.c_str()));
        if (i < 0 || R->ino[i].dir)
            return false;
        Quiet q;
        out.assign(R->pool + R->ino[i].off, R->ino[i].len);
        return true;
    }
    void disk_write(const std::string& p, const std::string& data)
    {
        std::string n = norm(p.c_str());
        for (size_t k = n.find('/', 1); k != std::string::npos; k = n.find('/', k + 1))
            if (!dir_ok(n.substr(0, k)))
                create(n.substr(0, k), true);
        int i = find(n);
        if (i < 0)
            i = create(n, false);
        if (i < 0 || !grow(R->ino[i], (uint32_t)data.size()))
            fail("internal", "disk_write");
        memcpy(R->pool + R->ino[i].off, data.data(), data.size());
        R->ino[i].len = (uint32_t)data.size();
    }
    void disk_remove(const std::string& p)
    {
        int i = find(norm(p.c_str()));
        if (i >= 0)
            R->ino[i].used = 0;
    }
    std::vector<std::string> disk_list()
    {
        Quiet q;
        std::vector<std::string> v;
        for (uint32_t i = 0; i < INODES; i++)
            if (R->ino[i].used)
                v.push_back(std::string(R->ino[i].path) + (R->ino[i].dir ? "/" : ""));
        return v;
    }
    void disk_capacity(int64_t n) { R->disk_left = n; }
    void disk_full(bool v) { R->disk_full = v; }
    std::string disk_copy_all()
    {
        Quiet q;
        std::string s;
        for (uint32_t i = 0; i < INODES; i++)
            if (R->ino[i].used) {
                s.append(R->ino[i].path);
                s.push_back('\0');
                s.push_back(R->ino[i].dir ? 'd' : 'f');
                uint32_t l = R->ino[i].len;
                s.append((char*)&l, 4);
                s.append(R->pool + R->ino[i].off, l);
            }
        return s;
    }
    void disk_restore_all(const std::string& s)
    {
        Quiet q;
        for (uint32_t i = 0; i < INODES; i++)
            R->ino[i].used = 0;
        size_t p = 0;
        while (p < s.size()) {
            std::string path(s.c_str() + p);
            p += path.size() + 1;
            bool d = s[p++] == 'd';
            uint32_t l;
            memcpy(&l, s.data() + p, 4);
            p += 4;
            if (d)
                create(path, true);
            else
                disk_write(path, s.substr(p, l));
            p += l;
        }
    }
}

// ------------------------------------------------------------------ interposed libc
#define REAL(ret, name, args) \
    static ret(*r_##name) args = nullptr; \
    if (!r_##name)            \
    r_##name = (ret(*) args)dlsym(RTLD_NEXT, #name)

static int null_fd()
{
    REAL(int, open, (const char*, int, ...));
    return r_open("/dev/null", O_RDWR);
}
static int mode_flags(const char* m)
{
    bool plus = strchr(m, '+');
    int f = 0;
    if (m[0] == 'r')
        f = plus ? O_RDWR : O_RDONLY;
    else if (m[0] == 'w')
        f = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
    else
        f = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
    if (strchr(m, 'x'))
        f |= O_EXCL;
    return f;
}
static FILE* sim_fopen(const char* path, const char* mode)
{
    int fl = mode_flags(mode);
    int i = do_open(path, fl);
    if (i < 0)
        return nullptr;
    int fd = null_fd();
    if (fd < 0 || fd >= MAXFD) {
        errno = EMFILE;
        return nullptr;
    }
    Quiet q;
    FILE* f = fdopen(fd, "r+");
    quiet--;
    bind(fd, i, fl, f);
    quiet++;
    return f;
}
extern "C" FILE* fopen(const char* path, const char* mode)
{
    REAL(FILE*, fopen, (const char*, const char*));
    return simpath(path) ? sim_fopen(path, mode) : r_fopen(path, mode);
}
extern "C" FILE* fopen64(const char* path, const char* mode)
{
    REAL(FILE*, fopen64, (const char*, const char*));
    return simpath(path) ? sim_fopen(path, mode) : r_fopen64(path, mode);
}
extern "C" int fclose(FILE* f)
{
    REAL(int, fclose, (FILE*));
    if (in_run && f) {
        int fd = fileno(f);
        if (isfd(fd)) {
            sys_point("close");
            logf("close %s", R->ino[fds[fd].ino].path);
            fds[fd].used = false;
            bool bad = fault(F_CLOSE_EIO);
            quiet++;
            r_fclose(f);
            quiet--;
            if (bad) {
                errno = EIO;
                return EOF;
            }
            return 0;
        }
    }
    return r_fclose(f);
}
static int sim_open(const char* path, int fl)
{
    int i = do_open(path, fl);
    if (i < 0)
        return -1;
    int fd = null_fd();
    bind(fd, i, fl, nullptr);
    return fd;
}
extern "C" int open(const char* path, int fl, ...)
{
    va_list ap;
    va_start(ap, fl);
    int m = va_arg(ap, int);
    va_end(ap);
    REAL(int, open, (const char*, int, ...));
    return simpath(path) ? sim_open(path, fl) : r_open(path, fl, m);
}
extern "C" int open64(const char* path, int fl, ...)
{
    va_list ap;
    va_start(ap, fl);
    int m = va_arg(ap, int);
    va_end(ap);
    REAL(int, open64, (const char*, int, ...));
    return simpath(path) ? sim_open(path, fl) : r_open64(path, fl, m);
}
extern "C" int openat(int d, const char* path, int fl, ...)
{
    va_list ap;
    va_start(ap, fl);
    int m = va_arg(ap, int);
    va_end(ap);
    REAL(int, openat, (int, const char*, int, ...));
    return d == AT_FDCWD && simpath(path) ? sim_open(path, fl) : r_openat(d, path, fl, m);
}
extern "C" int creat(const char* path, mode_t m)
{
    return open(path, O_CREAT | O_WRONLY | O_TRUNC, m);
}
extern "C" int close(int fd)
{
    REAL(int, close, (int));
    if (isfd(fd)) {
        sys_point("close");
        fds[fd].used = false;
        bool bad = fault(F_CLOSE_EIO);
        r_close(fd);
        if (bad) {
            errno = EIO;
            return -1;
        }
        return 0;
    }
    return r_close(fd);
}
extern "C" ssize_t write(int fd, const void* b, size_t n)
{
    REAL(ssize_t, write, (int, const void*, size_t));
    return isfd(fd) ? do_write(fd, (const char*)b, n) : r_write(fd, b, n);
}
extern "C" ssize_t pwrite(int fd, const void* b, size_t n, off_t o)
{
    REAL(ssize_t, pwrite, (int, const void*, size_t, off_t));
    return isfd(fd) ? do_write(fd, (const char*)b, n, true, o) : r_pwrite(fd, b, n, o);
}
extern "C" ssize_t read(int fd, void* b, size_t n)
{
    REAL(ssize_t, read, (int, void*, size_t));
    return isfd(fd) ? do_read(fd, (char*)b, n) : r_read(fd, b, n);
}
extern "C" ssize_t pread(int fd, void* b, size_t n, off_t o)
{
    REAL(ssize_t, pread, (int, void*, size_t, off_t));
    return isfd(fd) ? do_read(fd, (char*)b, n, true, o) : r_pread(fd, b, n, o);
}
extern "C" ssize_t writev(int fd, const struct iovec* v, int c)
{
    REAL(ssize_t, writev, (int, const struct iovec*, int));
    if (!isfd(fd))
        return r_writev(fd, v, c);
    Quiet* q = new Quiet; // building the flat buffer is not part of the program
    std::string s;
    for (int i = 0; i < c; i++)
        s.append((const char*)v[i].iov_base, v[i].iov_len);
    delete q;
    return do_write(fd, s.data(), s.size());
}
static off_t sim_seek(int fd, off_t o, int w)
{
    Fd& d = fds[fd];
    int64_t b = w == SEEK_SET ? 0 : w == SEEK_CUR ? (int64_t)d.pos : (int64_t)R->ino[d.ino].len;
    if (b + o < 0) {
        errno = EINVAL;
        return -1;
    }
    d.pos = (uint64_t)(b + o);
    return (off_t)d.pos;
}
extern "C" off_t lseek(int fd, off_t o, int w)
{
    REAL(off_t, lseek, (int, off_t, int));
    return isfd(fd) ? sim_seek(fd, o, w) : r_lseek(fd, o, w);
}
extern "C" off64_t lseek64(int fd, off64_t o, int w)
{
    REAL(off64_t, lseek64, (int, off64_t, int));
    return isfd(fd) ? sim_seek(fd, o, w) : r_lseek64(fd, o, w);
}
extern "C" int fseeko64(FILE* f, off64_t o, int w)
{
    REAL(int, fseeko64, (FILE*, off64_t, int));
    if (in_run && isfd(fileno(f)))
        return sim_seek(fileno(f), o, w) < 0 ? -1 : 0;
    return r_fseeko64(f, o, w);
}
extern "C" int mkdir(const char* p, mode_t m)
{
    REAL(int, mkdir, (const char*, mode_t));
    return simpath(p) ? do_mkdir(p) : r_mkdir(p, m);
}
extern "C" int stat(const char* p, struct stat* st)
{
    REAL(int, stat, (const char*, struct stat*));
    return simpath(p) ? do_stat(p, st) : r_stat(p, st);
}
extern "C" int lstat(const char* p, struct stat* st)
{
    REAL(int, lstat, (const char*, struct stat*));
    return simpath(p) ? do_stat(p, st) : r_lstat(p, st);
}
extern "C" int fstat(int fd, struct stat* st)
{
    REAL(int, fstat, (int, struct stat*));
    return isfd(fd) ? do_fstat(fd, st) : r_fstat(fd, st);
}
extern "C" int fstat64(int fd, struct stat64* st)
{
    REAL(int, fstat64, (int, struct stat64*));
    return isfd(fd) ? do_fstat(fd, (struct stat*)st) : r_fstat64(fd, st);
}
extern "C" int stat64(const char* p, struct stat64* st)
{
    REAL(int, stat64, (const char*, struct stat64*));
    return simpath(p) ? do_stat(p, (struct stat*)st) : r_stat64(p, st);
}
extern "C" int access(const char* p, int m)
{
    REAL(int, access, (const char*, int));
    if (simpath(p)) {
        struct stat st;
        return do_stat(p, &st);
    }
    return r_access(p, m);
}
extern "C" int statx(int d, const char* p, int fl, unsigned mask, struct statx* x)
{
    REAL(int, statx, (int, const char*, int, unsigned, struct statx*));
    bool byfd = in_run && p && !*p && isfd(d);
    if (!byfd && !(simpath(p) && d == AT_FDCWD))
        return r_statx(d, p, fl, mask, x);
    struct stat st;
    if (byfd)
        do_fstat(d, &st);
    else if (do_stat(p, &st) < 0)
        return -1;
    memset(x, 0, sizeof *x);
    x->stx_mask = STATX_BASIC_STATS;
    x->stx_mode = (uint16_t)st.st_mode;
    x->stx_size = st.st_size;
    x->stx_nlink = (uint32_t)st.st_nlink;
    x->stx_ino = st.st_ino;
    return 0;
}
extern "C" int rename(const char* a, const char* b)
{
    REAL(int, rename, (const char*, const char*));
    if (!simpath(a))
        return r_rename(a, b);
    sys_point("rename");
    uint32_t prm;
    if (fault(F_OPEN, &prm)) {
        errno = EIO;
        return -1;
    }
    std::string na = norm(a), nb = norm(b);
    int i = find(na);
    if (i < 0 || !dir_ok(parent(nb))) {
        errno = ENOENT;
        return -1;
    }
    int j = find(nb);
    if (j >= 0 && j != i)
        R->ino[j].used = 0;
    snprintf(R->ino[i].path, sizeof R->ino[i].path, "%s", nb.c_str());
    logf("rename %s -> %s", na.c_str(), nb.c_str());
    sys_point("renamed");
    return 0;
}
static int do_unlink(const char* p)
{
    sys_point("unlink");
    int i = find(norm(p));
    if (i < 0) {
        errno = ENOENT;
        return -1;
    }
    R->ino[i].used = 0;
    logf("unlink %s", p);
    return 0;
}
extern "C" int unlink(const char* p)
{
    REAL(int, unlink, (const char*));
    return simpath(p) ? do_unlink(p) : r_unlink(p);
}
extern "C" int unlinkat(int d, const char* p, int fl)
{
    REAL(int, unlinkat, (int, const char*, int));
    return d == AT_FDCWD && simpath(p) ? do_unlink(p) : r_unlinkat(d, p, fl);
}
extern "C" int remove(const char* p)
{
    REAL(int, remove, (const char*));
    return simpath(p) ? do_unlink(p) : r_remove(p);
}
extern "C" int rmdir(const char* p)
{
    REAL(int, rmdir, (const char*));
    return simpath(p) ? do_unlink(p) : r_rmdir(p);
}
extern "C" int fsync(int fd)
{
    REAL(int, fsync, (int));
    if (isfd(fd)) {
        sys_point("fsync");
        return 0;
    }
    return r_fsync(fd);
}
extern "C" int fdatasync(int fd) { return fsync(fd); }
extern "C" int ftruncate(int fd, off_t n)
{
    REAL(int, ftruncate, (int, off_t));
    if (isfd(fd)) {
        Inode& i = R->ino[fds[fd].ino];
        if ((uint32_t)n < i.len)
            i.len = (uint32_t)n;
        return 0;
    }
    return r_ftruncate(fd, n);
}
extern "C" int ioctl(int fd, unsigned long rq, ...)
{
    va_list ap;
    va_start(ap, rq);
    void* a = va_arg(ap, void*);
    va_end(ap);
    REAL(int, ioctl, (int, unsigned long, ...));
    if (isfd(fd)) {
        if (rq == FIONREAD) {
            int64_t m = (int64_t)R->ino[fds[fd].ino].len - (int64_t)fds[fd].pos;
            *(int*)a = m > 0 ? (int)m : 0;
            return 0;
        }
        errno = ENOTTY;
        return -1;
    }
    return r_ioctl(fd, rq, a);
}
extern "C" int poll(struct pollfd* p, nfds_t n, int to)
{
    REAL(int, poll, (struct pollfd*, nfds_t, int));
    if (n == 1 && isfd(p[0].fd)) {
        p[0].revents = p[0].events;
        return 1;
    }
    return r_poll(p, n, to);
}
