// Fake operating system for fibers: threads, locks, files, mappings, clocks.
// Calls made outside a fiber go to the real implementation.
#include "engine.hpp"
#include <cerrno>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

using namespace mc;
#define REAL(name)                                                   \
    static decltype(&::name) real_##name;                            \
    if (!real_##name) real_##name = (decltype(&::name))dlsym(RTLD_NEXT, #name)

EXPORT void mc_yield();

// ---------------- threads ----------------
static const unsigned long TH0 = 0x1000;
EXPORT int pthread_create(pthread_t *t, const pthread_attr_t *, void *(*f)(void *), void *arg)
{
    if (!active()) return EAGAIN;
    int i = spawn(f, arg, false);
    fibers[i].daemon = true;
    *t = TH0 + i;
    sched_point();
    return 0;
}
EXPORT int pthread_join(pthread_t t, void **r)
{
    if (!active()) return EINVAL;
    int i = t - TH0;
    if (i < 0 || i >= MAXF || fibers[i].st == NONE_) return ESRCH;
    block(B_JOIN, i, 0);
    {
        Guard g;
        hb_acquire((uint64_t)&fibers[i]);
        if (r) *r = fibers[i].ret;
    }
    return 0;
}
EXPORT int pthread_detach(pthread_t)
{
    return 0;
}
EXPORT pthread_t pthread_self() noexcept
{
    if (active()) return TH0 + cur;
    static pthread_t (*r)();
    if (!r) r = (pthread_t(*)())dlsym(RTLD_NEXT, "pthread_self");
    return r();
}
EXPORT int sched_yield() noexcept
{
    if (active()) { mc_yield(); return 0; }
    return syscall(SYS_sched_yield);
}
EXPORT int usleep(useconds_t u)
{
    if (active()) { mc_yield(); return 0; }
    struct timespec ts = {u / 1000000, (long)(u % 1000000) * 1000};
    return syscall(SYS_nanosleep, &ts, nullptr);
}
EXPORT int nanosleep(const struct timespec *a, struct timespec *b)
{
    if (active()) { mc_yield(); return 0; }
    return syscall(SYS_nanosleep, a, b);
}
EXPORT int clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *b)
{
    if (active()) { mc_yield(); return 0; }
    return syscall(SYS_clock_nanosleep, c, fl, a, b);
}
static const int64_t REAL_BASE = 1700000000, MONO_BASE = 5000;
EXPORT int clock_gettime(clockid_t c, struct timespec *t) noexcept
{
    if (active())
    {
        // the clocks differ; a thread's clock moves when it waits for a time
        int64_t n = fibers[cur].clk;
        t->tv_sec = (c == CLOCK_REALTIME ? REAL_BASE : MONO_BASE) + n / 1000000000;
        t->tv_nsec = n % 1000000000;
        return 0;
    }
    return syscall(SYS_clock_gettime, c, t);
}
EXPORT time_t time(time_t *t) noexcept
{
    if (active()) { if (t) *t = 1700000000; return 1700000000; }
    return syscall(SYS_time, t);
}

// The time at which a timed operation gives up has come.
static void time_out(const struct timespec *t, int64_t base)
{
    Guard g;
    int64_t n = (t->tv_sec - base) * 1000000000 + t->tv_nsec;
    if (n > fibers[cur].clk) fibers[cur].clk = n;
    observe(fibers[cur].clk);
}
static int64_t base_of(clockid_t c) { return c == CLOCK_REALTIME ? REAL_BASE : MONO_BASE; }

// ---------------- locks ----------------
static bool get_lock(uint64_t a, bool ex, bool try_, bool recursive, const struct timespec *until = nullptr, int64_t base = REAL_BASE)
{
    sched_point();
    while (true)
    {
        ++in_engine;
        LockSt &l = locks[a];
        bool ok = false;
        if (ex)
        {
            if (l.owner < 0 && l.readers == 0) { l.owner = cur; l.depth = 1; l.recursive = recursive; ok = true; }
            else if (l.owner == cur && l.recursive) { ++l.depth; ok = true; }
        }
        else if (l.owner < 0) { ++l.readers; ok = true; }
        if (ok)
        {
            hb_acquire(a);
            hb_acquire(a + 1);
            observe(1);
            note_change();
            --in_engine;
            return true;
        }
        observe(0);
        --in_engine;
        if (try_) return false;
        if (until)
        {
            try_ = true; // when it runs again the lock is free or the time is over
            block(B_TLOCK, a, ex ? 0 : 1);
            Guard g;
            auto it = locks.find(a);
            if (it != locks.end() && (it->second.owner >= 0 || (ex && it->second.readers)))
            {
                observe(0);
                time_out(until, base);
                return false;
            }
        }
        else block(B_LOCK, a, ex ? 0 : 1);
    }
}
static int put_lock(uint64_t a)
{
    Guard g;
    auto it = locks.find(a);
    if (it == locks.end() || (it->second.owner < 0 && it->second.readers == 0))
        violation("unlock of a lock that is not held");
    LockSt &l = it->second;
    if (l.owner >= 0)
    {
        if (l.owner != cur) violation("unlock of a lock held by another thread");
        if (--l.depth == 0)
        {
            l.owner = -1;
            hb_release(a);
        }
    }
    else
    {
        --l.readers;
        hb_release(a);
    }
    if (l.owner < 0 && !l.readers) locks.erase(it);
    note_change();
    return 0;
}
static bool is_recursive(pthread_mutex_t *m) { return m->__data.__kind & PTHREAD_MUTEX_RECURSIVE_NP; }
namespace mc
{
void os_lock(void *a, bool ex) { get_lock((uint64_t)a, ex, false, false); }
bool os_timedlock(void *a, bool ex, const struct timespec *t) { return get_lock((uint64_t)a, ex, false, false, t); }
bool os_trylock(void *a, bool ex) { return get_lock((uint64_t)a, ex, true, false); }
void os_unlock(void *a) { put_lock((uint64_t)a); }
} // namespace mc
EXPORT int pthread_mutex_lock(pthread_mutex_t *m) noexcept
{
    if (active()) { get_lock((uint64_t)m, true, false, is_recursive(m)); return 0; }
    REAL(pthread_mutex_lock);
    return real_pthread_mutex_lock(m);
}
EXPORT int pthread_mutex_trylock(pthread_mutex_t *m) noexcept
{
    if (active()) return get_lock((uint64_t)m, true, true, is_recursive(m)) ? 0 : EBUSY;
    REAL(pthread_mutex_trylock);
    return real_pthread_mutex_trylock(m);
}
EXPORT int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *t) noexcept
{
    return get_lock((uint64_t)m, true, false, is_recursive(m), t) ? 0 : ETIMEDOUT;
}
EXPORT int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const struct timespec *t) noexcept
{
    return get_lock((uint64_t)m, true, false, is_recursive(m), t, base_of(c)) ? 0 : ETIMEDOUT;
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t *m) noexcept
{
    if (active()) return put_lock((uint64_t)m);
    REAL(pthread_mutex_unlock);
    return real_pthread_mutex_unlock(m);
}
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t *m) noexcept
{
    if (active()) { get_lock((uint64_t)m, false, false, false); return 0; }
    REAL(pthread_rwlock_rdlock);
    return real_pthread_rwlock_rdlock(m);
}
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t *m) noexcept
{
    if (active()) { get_lock((uint64_t)m, true, false, false); return 0; }
    REAL(pthread_rwlock_wrlock);
    return real_pthread_rwlock_wrlock(m);
}
EXPORT int pthread_rwlock_tryrdlock(pthread_rwlock_t *m) noexcept { return get_lock((uint64_t)m, false, true, false) ? 0 : EBUSY; }
EXPORT int pthread_rwlock_trywrlock(pthread_rwlock_t *m) noexcept { return get_lock((uint64_t)m, true, true, false) ? 0 : EBUSY; }
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t *m) noexcept
{
    if (active()) return put_lock((uint64_t)m);
    REAL(pthread_rwlock_unlock);
    return real_pthread_rwlock_unlock(m);
}
EXPORT int pthread_spin_lock(pthread_spinlock_t *m) noexcept { get_lock((uint64_t)m, true, false, false); return 0; }
EXPORT int pthread_spin_trylock(pthread_spinlock_t *m) noexcept { return get_lock((uint64_t)m, true, true, false) ? 0 : EBUSY; }
EXPORT int pthread_spin_unlock(pthread_spinlock_t *m) noexcept { return put_lock((uint64_t)m); }
namespace mc
{
// False if the time was over before a signal came.
bool os_cond_wait(void *c, void *m, const struct timespec *until, int64_t base)
{
    ++in_engine;
    fibers[cur].signaled = false;
    --in_engine;
    put_lock((uint64_t)m);
    block(until ? B_TCOND : B_COND, (uint64_t)c, 0);
    ++in_engine;
    bool r = fibers[cur].signaled;
    fibers[cur].signaled = false;
    observe(r);
    if (!r) time_out(until, base ? base : REAL_BASE);
    --in_engine;
    get_lock((uint64_t)m, true, false, false);
    return r;
}
void os_cond_wake(void *c, bool all)
{
    sched_point();
    Guard g;
    int w[MAXF], n = 0;
    for (int i = 0; i < MAXF; ++i)
        if ((fibers[i].st == B_COND || fibers[i].st == B_TCOND) && fibers[i].bobj == (uint64_t)c && !fibers[i].signaled) w[n++] = i;
    if (!n) return;
    if (!all) w[0] = w[choose(n)], n = 1; // any of them
    for (int i = 0; i < n; ++i) fibers[w[i]].signaled = true;
    note_change();
}
} // namespace mc
EXPORT int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
    os_cond_wait(c, m, nullptr, 0);
    return 0;
}
EXPORT int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { return os_cond_wait(c, m, t, REAL_BASE) ? 0 : ETIMEDOUT; }
EXPORT int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t) { return os_cond_wait(c, m, t, base_of(k)) ? 0 : ETIMEDOUT; }
EXPORT int pthread_cond_signal(pthread_cond_t *c) noexcept { os_cond_wake(c, false); return 0; }
EXPORT int pthread_cond_broadcast(pthread_cond_t *c) noexcept { os_cond_wake(c, true); return 0; }
EXPORT int pthread_once(pthread_once_t *o, void (*f)())
{
    if (!active())
    {
        REAL(pthread_once);
        return real_pthread_once(o, f);
    }
    get_lock((uint64_t)o + 1, true, false, false);
    if (*(volatile int *)o != 2)
    {
        f();
        will_write((uintptr_t)o, 4);
        *(volatile int *)o = 2;
    }
    put_lock((uint64_t)o + 1);
    return 0;
}
// function-local statics
EXPORT int __cxa_guard_acquire(uint64_t *g)
{
    if (!active())
    {
        if (*(char *)g) return 0;
        return 1;
    }
    if (*(volatile char *)g) { hb_acquire((uint64_t)g); return 0; }
    get_lock((uint64_t)g + 1, true, false, false);
    if (*(volatile char *)g)
    {
        put_lock((uint64_t)g + 1);
        return 0;
    }
    return 1;
}
EXPORT void __cxa_guard_release(uint64_t *g)
{
    if (!active())
    {
        *(char *)g = 1;
        return;
    }
    ghost((uintptr_t)g, 1); // read atomically from now on
    will_write((uintptr_t)g, 1);
    *(volatile char *)g = 1;
    {
        Guard g2;
        hb_release((uint64_t)g);
    }
    put_lock((uint64_t)g + 1);
}
EXPORT void __cxa_guard_abort(uint64_t *g)
{
    if (active()) put_lock((uint64_t)g + 1);
}
EXPORT int __cxa_thread_atexit(void (*f)(void *), void *o, void *d)
{
    if (!active())
    {
        typedef int (*fn)(void (*)(void *), void *, void *);
        static fn r;
        if (!r) r = (fn)dlsym(RTLD_NEXT, "__cxa_thread_atexit_impl");
        return r ? r(f, o, d) : 0;
    }
    Guard g;
    fibers[cur].atexit.push_back({f, o});
    return 0;
}
EXPORT int __cxa_atexit(void (*)(void *), void *, void *) noexcept { return 0; } // the process never exits normally

// ---------------- files ----------------
namespace mc
{
static std::string norm(const char *p)
{
    std::string s = p;
    if (s.empty()) return s;
    if (s[0] != '/') s = "/cwd/" + s;
    std::vector<std::string> parts;
    size_t i = 0;
    while (i < s.size())
    {
        while (i < s.size() && s[i] == '/') ++i;
        size_t j = s.find('/', i);
        if (j == std::string::npos) j = s.size();
        std::string c = s.substr(i, j - i);
        if (c == "..") { if (!parts.empty()) parts.pop_back(); }
        else if (!c.empty() && c != ".") parts.push_back(c);
        i = j;
    }
    std::string r;
    for (auto &c : parts) r += "/" + c;
    return r.empty() ? "/" : r;
}
static void add_dir(const std::string &d)
{
    if (fs.names.count(d)) return;
    File f;
    f.name = d;
    f.dir = true;
    fs.names[d] = fs.files.size();
    fs.files.push_back(f);
}
static void mk_dirs(const std::string &d)
{
    for (size_t i = 1; i <= d.size(); ++i)
        if (i == d.size() || d[i] == '/') add_dir(d.substr(0, i));
}
void fs_init()
{
    add_dir("/");
    mk_dirs("/cwd");
}
static std::string parent(const std::string &p)
{
    size_t i = p.rfind('/');
    return i == 0 ? "/" : p.substr(0, i);
}
static File *lookup(const std::string &p)
{
    auto it = fs.names.find(p);
    return it == fs.names.end() ? nullptr : &fs.files[it->second];
}
static void mutate()
{
    crash_event();
    note_change();
}
static void ensure_cap(File &f, uint64_t n)
{
    if (n <= f.cap) return;
    if (f.maps) { violation("file grown beyond its mapping (not modelled)"); return; }
    uintptr_t nb = pm_window(n);
    if (f.base && f.size)
    {
        do_write((void *)nb, (void *)f.base, f.size);
    }
    f.base = nb;
    f.cap = (n + 4095) & ~4095ull;
}
static void set_size(File &f, uint64_t n)
{
    ensure_cap(f, n);
    if (n < f.size && f.base)
    {
        // dropped bytes read as zero if the file grows again
        ++in_engine;
        bool v = shadow_ok(f.base + n, 1);
        if (!v) shadow_set(f.base + n, f.size - n, true);
        --in_engine;
        do_set((void *)(f.base + n), 0, f.size - n);
        for (uintptr_t l = f.base + n; l < f.base + f.size; l += 64) pm_flush(l);
        pm_fence();
        if (!v) shadow_set(f.base + n, f.size - n, false);
        if (f.maps) shadow_set(f.base + n, f.size - n, false);
    }
    else if (n > f.size && f.base && f.maps) shadow_set(f.base + f.size, n - f.size, true);
    f.size = n;
}
uintptr_t fs_pool_open(const char *path)
{
    std::string p = norm(path);
    File *f = lookup(p);
    observe(f ? 2 : 1);
    return f && !f->dir ? f->base : 0;
}
uintptr_t fs_pool_create(const char *path, size_t n)
{
    std::string p = norm(path);
    File *f = lookup(p);
    observe(f ? 2 : 1);
    if (f) return 0;
    File x;
    x.name = p;
    fs.names[p] = fs.files.size();
    fs.files.push_back(x);
    set_size(fs.files.back(), n);
    return fs.files.back().base;
}
static int fake_open(const char *path, int fl)
{
    sched_point();
    Guard g;
    std::string p = norm(path);
    File *f = lookup(p);
    observe(f ? 2 : 1);
    if (!f)
    {
        if (!(fl & O_CREAT)) { errno = ENOENT; return -1; }
        File *d = lookup(parent(p));
        if (!d || !d->dir) { errno = ENOENT; return -1; }
        mutate();
        File n;
        n.name = p;
        fs.names[p] = fs.files.size();
        fs.files.push_back(n);
        f = &fs.files.back();
    }
    else
    {
        if ((fl & O_CREAT) && (fl & O_EXCL)) { errno = EEXIST; return -1; }
        if (f->dir && (fl & (O_WRONLY | O_RDWR))) { errno = EISDIR; return -1; }
        if ((fl & O_DIRECTORY) && !f->dir) { errno = ENOTDIR; return -1; }
        if ((fl & O_TRUNC) && (fl & (O_WRONLY | O_RDWR)) && f->size)
        {
            mutate();
            set_size(*f, 0);
        }
    }
    int fd = proc.next_fd++;
    Fd x;
    x.file = fs.names[p];
    if (fl & O_APPEND) x.off = f->size;
    proc.fds[fd] = x;
    return fd;
}
static Fd *fd_of(int fd)
{
    auto it = proc.fds.find(fd);
    return it == proc.fds.end() ? nullptr : &it->second;
}
static void list_dir(Fd &d)
{
    std::string p = fs.files[d.file].name;
    if (p != "/") p += "/";
    for (auto &n : fs.names)
        if (n.first.size() > p.size() && n.first.compare(0, p.size(), p) == 0 && n.first.find('/', p.size()) == std::string::npos)
            d.names.push_back(n.first.substr(p.size()));
    if (dir_order) std::reverse(d.names.begin(), d.names.end());
}
static void fill_stat(struct stat *s, const File &f, int ino)
{
    memset(s, 0, sizeof *s);
    s->st_mode = f.dir ? S_IFDIR | 0755 : S_IFREG | 0644;
    s->st_size = f.size;
    s->st_ino = ino + 1;
    s->st_dev = 7;
    s->st_nlink = 1;
    s->st_blksize = 4096;
    s->st_blocks = (f.size + 511) / 512;
}
} // namespace mc

#define MODE                              \
    va_list ap;                           \
    va_start(ap, fl);                     \
    int mode = va_arg(ap, int);           \
    va_end(ap);
EXPORT int open(const char *p, int fl, ...)
{
    MODE
    if (active()) return fake_open(p, fl);
    return syscall(SYS_openat, AT_FDCWD, p, fl, mode);
}
EXPORT int open64(const char *p, int fl, ...)
{
    MODE
    if (active()) return fake_open(p, fl);
    return syscall(SYS_openat, AT_FDCWD, p, fl, mode);
}
static bool at_path(int d, const char *p, std::string &out)
{
    Guard g;
    if (p[0] == '/' || d == AT_FDCWD) { out = p; return true; }
    Fd *x = fd_of(d);
    if (!x) { errno = EBADF; return false; }
    out = fs.files[x->file].name + "/" + p;
    return true;
}
EXPORT int openat(int d, const char *p, int fl, ...)
{
    MODE
    if (!active()) return syscall(SYS_openat, d, p, fl, mode);
    std::string *s;
    { Guard g; s = new std::string; }
    int r = at_path(d, p, *s) ? fake_open(s->c_str(), fl) : -1;
    Guard g;
    delete s;
    return r;
}
EXPORT int __openat_2(int d, const char *p, int fl) { return openat(d, p, fl, 0); }
EXPORT int __open_2(const char *p, int fl) { return open(p, fl, 0); }
EXPORT int openat64(int d, const char *p, int fl, ...)
{
    MODE
    if (!active()) return syscall(SYS_openat, d, p, fl, mode);
    return openat(d, p, fl, mode);
}
EXPORT int creat(const char *p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
EXPORT int close(int fd)
{
    if (!active()) return syscall(SYS_close, fd);
    Guard g;
    if (!proc.fds.erase(fd)) { errno = EBADF; return -1; }
    return 0;
}
static int fake_truncate(File *f, off_t n)
{
    mutate();
    set_size(*f, n);
    return 0;
}
EXPORT int ftruncate(int fd, off_t n) noexcept
{
    if (!active()) return syscall(SYS_ftruncate, fd, n);
    sched_point();
    Guard g;
    Fd *x = fd_of(fd);
    if (!x) { errno = EBADF; return -1; }
    if (n < 0) { errno = EINVAL; return -1; }
    return fake_truncate(&fs.files[x->file], n);
}
EXPORT int ftruncate64(int fd, off_t n) noexcept { return ftruncate(fd, n); }
EXPORT int truncate(const char *p, off_t n) noexcept
{
    if (!active()) return syscall(SYS_truncate, p, n);
    sched_point();
    Guard g;
    File *f = lookup(norm(p));
    if (!f) { errno = ENOENT; return -1; }
    return fake_truncate(f, n);
}
EXPORT int posix_fallocate(int fd, off_t o, off_t n)
{
    sched_point();
    Guard g;
    Fd *x = fd_of(fd);
    if (!x) return EBADF;
    if ((uint64_t)(o + n) > fs.files[x->file].size) fake_truncate(&fs.files[x->file], o + n);
    return 0;
}
EXPORT int posix_fallocate64(int fd, off_t o, off_t n) { return posix_fallocate(fd, o, n); }
EXPORT int fallocate(int fd, int, off_t o, off_t n) { return posix_fallocate(fd, o, n); }

EXPORT void *mmap(void *hint, size_t n, int prot, int fl, int fd, off_t off) noexcept
{
    if (!active()) return (void *)syscall(SYS_mmap, hint, n, prot, fl, fd, off);
    sched_point();
    if (n == 0) { errno = EINVAL; return MAP_FAILED; }
    if (fl & MAP_ANONYMOUS)
    {
        void *p = arena_alloc((n + 4095) & ~4095ull, 4096, true);
        return p;
    }
    ++in_engine;
    Fd *x = fd_of(fd);
    if (!x || fs.files[x->file].dir)
    {
        --in_engine;
        errno = EBADF;
        return MAP_FAILED;
    }
    int fi = x->file;
    if (fl & MAP_PRIVATE)
    {
        --in_engine;
        void *p = arena_alloc((n + 4095) & ~4095ull, 4096, true);
        File &f = fs.files[fi];
        if (f.base) do_write(p, (char *)f.base + off, std::min<uint64_t>(n, f.size - std::min<uint64_t>(off, f.size)));
        return p;
    }
    File &f = fs.files[fi];
    ensure_cap(f, off + n);
    ++f.maps;
    Map_ m;
    m.a = f.base + off;
    m.n = n;
    m.file = fi;
    proc.maps.push_back(m);
    uint64_t ok = (uint64_t)off >= f.size ? 0 : std::min<uint64_t>(n, f.size - off);
    shadow_set(m.a, ok, true);
    if (f.maps == 1) priv_add(m.a, m.n, true);
    else priv_forget(f.base, f.cap);
    observe(m.a);
    note_change();
    --in_engine;
    return (void *)m.a;
}
EXPORT void *mmap64(void *hint, size_t n, int prot, int fl, int fd, off_t off) noexcept { return mmap(hint, n, prot, fl, fd, off); }
EXPORT int munmap(void *p, size_t n) noexcept
{
    if (!active()) return syscall(SYS_munmap, p, n);
    sched_point();
    Guard g;
    uintptr_t a = (uintptr_t)p;
    if ((a & 4095) || n == 0) { errno = EINVAL; return -1; }
    size_t len = (n + 4095) & ~4095ull;
    if (in_arena(a))
    {
        if (shadow_ok(a, 1) && !shadow_ok(a - 1, 1) && arena_size(p) == len) { arena_free(p); return 0; }
        violation("memory safety: munmap of heap memory");
    }
    for (size_t i = 0; i < proc.maps.size(); ++i)
    {
        Map_ &m = proc.maps[i];
        size_t ml = (m.n + 4095) & ~4095ull;
        if (m.a != a) continue;
        if (len > ml) violation("memory safety: munmap of more than the mapping (" + std::to_string(n) + " of " + std::to_string(m.n) + " bytes)");
        shadow_set(m.a, len, false);
        if (len == ml)
        {
            --fs.files[m.file].maps;
            bool again = false;
            for (size_t j = 0; j < proc.maps.size(); ++j)
                if (j != i && proc.maps[j].a == m.a) again = true;
            if (again) shadow_set(m.a, m.n, true);
            proc.maps.erase(proc.maps.begin() + i);
        }
        else
        {
            m.a += len;
            m.n -= len;
        }
        note_change();
        return 0;
    }
    for (auto &m : proc.maps)
        if (a < m.a + m.n && m.a < a + len) violation("memory safety: munmap of a range that is not one mapping");
    return 0;
}
EXPORT int msync(void *p, size_t n, int) noexcept
{
    if (!active()) return 0;
    sched_point();
    for (uintptr_t l = (uintptr_t)p & ~63ull; l < (uintptr_t)p + n; l += 64) pm_flush(l);
    pm_fence();
    return 0;
}
EXPORT int fsync(int fd)
{
    if (!active()) return syscall(SYS_fsync, fd);
    Fd *x;
    {
        Guard g;
        x = fd_of(fd);
    }
    if (!x) { errno = EBADF; return -1; }
    File &f = fs.files[x->file];
    if (f.base) msync((void *)f.base, f.size, 0);
    return 0;
}
EXPORT int fdatasync(int fd) { return fsync(fd); }
EXPORT int madvise(void *p, size_t n, int a) noexcept { return active() ? 0 : syscall(SYS_madvise, p, n, a); }

static int fake_stat(const char *p, struct stat *s)
{
    sched_point();
    Guard g;
    std::string q = norm(p);
    File *f = lookup(q);
    observe(f ? f->size + 2 : 1);
    if (!f) { errno = ENOENT; return -1; }
    fill_stat(s, *f, fs.names[q]);
    return 0;
}
EXPORT int stat(const char *p, struct stat *s) noexcept { return active() ? fake_stat(p, s) : syscall(SYS_stat, p, s); }
EXPORT int lstat(const char *p, struct stat *s) noexcept { return active() ? fake_stat(p, s) : syscall(SYS_lstat, p, s); }
EXPORT int fstat(int fd, struct stat *s) noexcept
{
    if (!active()) return syscall(SYS_fstat, fd, s);
    Guard g;
    Fd *x = fd_of(fd);
    if (!x) { errno = EBADF; return -1; }
    observe(fs.files[x->file].size);
    fill_stat(s, fs.files[x->file], x->file);
    return 0;
}
EXPORT int fstatat(int d, const char *p, struct stat *s, int fl) noexcept
{
    if (!active()) return syscall(SYS_newfstatat, d, p, s, fl);
    if ((fl & AT_EMPTY_PATH) && !*p) return fstat(d, s);
    std::string *q;
    { Guard g; q = new std::string; }
    int r = at_path(d, p, *q) ? fake_stat(q->c_str(), s) : -1;
    Guard g;
    delete q;
    return r;
}
EXPORT int stat64(const char *p, struct stat64 *s) noexcept { return stat(p, (struct stat *)s); }
EXPORT int lstat64(const char *p, struct stat64 *s) noexcept { return lstat(p, (struct stat *)s); }
EXPORT int fstat64(int p, struct stat64 *s) noexcept { return fstat(p, (struct stat *)s); }
EXPORT int fstatat64(int d, const char *p, struct stat64 *s, int fl) noexcept { return fstatat(d, p, (struct stat *)s, fl); }
EXPORT int statvfs(const char *, struct statvfs *s) noexcept
{
    memset(s, 0, sizeof *s);
    s->f_bsize = s->f_frsize = 4096;
    s->f_blocks = s->f_bfree = s->f_bavail = 1 << 20;
    return 0;
}
EXPORT int access(const char *p, int m) noexcept
{
    if (!active()) return syscall(SYS_access, p, m);
    struct stat s;
    return fake_stat(p, &s);
}
EXPORT int faccessat(int, const char *p, int m, int) noexcept { return access(p, m); }
static int fake_unlink(const char *p, bool dir)
{
    sched_point();
    Guard g;
    std::string q = norm(p);
    File *f = lookup(q);
    observe(f ? 2 : 1);
    if (!f) { errno = ENOENT; return -1; }
    if (f->dir != dir && f->dir) { errno = EISDIR; return -1; }
    mutate();
    fs.names.erase(q);
    return 0;
}
EXPORT int unlink(const char *p) noexcept { return active() ? fake_unlink(p, false) : syscall(SYS_unlink, p); }
EXPORT int remove(const char *p) noexcept
{
    if (!active()) return syscall(SYS_unlink, p);
    bool dir;
    {
        Guard g;
        File *f = lookup(norm(p));
        dir = f && f->dir;
    }
    return fake_unlink(p, dir);
}
EXPORT int rmdir(const char *p) noexcept { return active() ? fake_unlink(p, true) : syscall(SYS_rmdir, p); }
EXPORT int unlinkat(int d, const char *p, int fl) noexcept
{
    if (!active()) return syscall(SYS_unlinkat, d, p, fl);
    std::string *q;
    { Guard g; q = new std::string; }
    int r = at_path(d, p, *q) ? fake_unlink(q->c_str(), fl & AT_REMOVEDIR) : -1;
    Guard g;
    delete q;
    return r;
}
EXPORT int rename(const char *a, const char *b) noexcept
{
    if (!active()) return syscall(SYS_rename, a, b);
    sched_point();
    Guard g;
    std::string x = norm(a), y = norm(b);
    if (!lookup(x)) { errno = ENOENT; return -1; }
    if (!lookup(parent(y))) { errno = ENOENT; return -1; }
    if (x == y) return 0;
    mutate();
    int i = fs.names[x];
    fs.names.erase(x);
    fs.names[y] = i;
    fs.files[i].name = y;
    return 0;
}
EXPORT int mkdir(const char *p, mode_t m) noexcept
{
    if (!active()) return syscall(SYS_mkdir, p, m);
    sched_point();
    Guard g;
    std::string q = norm(p);
    if (lookup(q)) { errno = EEXIST; return -1; }
    if (!lookup(parent(q))) { errno = ENOENT; return -1; }
    mutate();
    add_dir(q);
    return 0;
}
EXPORT ssize_t pread(int fd, void *b, size_t n, off_t o)
{
    if (!active()) return syscall(SYS_pread64, fd, b, n, o);
    sched_point();
    Fd *x;
    { Guard g; x = fd_of(fd); }
    if (!x) { errno = EBADF; return -1; }
    File &f = fs.files[x->file];
    if ((uint64_t)o >= f.size || !f.base) return 0;
    if (n > f.size - o) n = f.size - o;
    {
        Guard g;
        for (size_t i = 0; i < n; ++i) observe(((unsigned char *)f.base)[o + i]);
    }
    do_write(b, (char *)f.base + o, n);
    return n;
}
EXPORT ssize_t pwrite(int fd, const void *b, size_t n, off_t o)
{
    if (!active()) return syscall(SYS_pwrite64, fd, b, n, o);
    sched_point();
    Fd *x;
    { Guard g; x = fd_of(fd); }
    if (!x) { errno = EBADF; return -1; }
    ++in_engine;
    File &f = fs.files[x->file];
    if (o + n > f.size) { mutate(); set_size(f, o + n); }
    bool v = shadow_ok(f.base + o, n);
    if (!v) shadow_set(f.base + o, n, true);
    --in_engine;
    do_write((char *)f.base + o, b, n);
    if (!v) shadow_set(f.base + o, n, false);
    return n;
}
EXPORT ssize_t read(int fd, void *b, size_t n)
{
    if (!active()) return syscall(SYS_read, fd, b, n);
    Fd *x;
    { Guard g; x = fd_of(fd); }
    if (!x) { errno = EBADF; return -1; }
    ssize_t r = pread(fd, b, n, x->off);
    if (r > 0) x->off += r;
    return r;
}
EXPORT ssize_t write(int fd, const void *b, size_t n)
{
    if (!active() || fd < 1000) return syscall(SYS_write, fd, b, n);
    Fd *x;
    { Guard g; x = fd_of(fd); }
    if (!x) { errno = EBADF; return -1; }
    ssize_t r = pwrite(fd, b, n, x->off);
    if (r > 0) x->off += r;
    return r;
}
EXPORT off_t lseek(int fd, off_t o, int w) noexcept
{
    if (!active()) return syscall(SYS_lseek, fd, o, w);
    Guard g;
    Fd *x = fd_of(fd);
    if (!x) { errno = EBADF; return -1; }
    if (w == SEEK_SET) x->off = o;
    else if (w == SEEK_CUR) x->off += o;
    else x->off = fs.files[x->file].size + o;
    return x->off;
}
EXPORT off_t lseek64(int fd, off_t o, int w) noexcept { return lseek(fd, o, w); }
EXPORT int flock(int fd, int op) noexcept { return active() ? 0 : syscall(SYS_flock, fd, op); }
EXPORT int isatty(int) noexcept { return 0; }

// directories: DIR is a small block holding the descriptor
struct FakeDir
{
    int fd;
    struct dirent ent;
};
EXPORT DIR *fdopendir(int fd)
{
    if (!active())
    {
        REAL(fdopendir);
        return real_fdopendir(fd);
    }
    Fd *x;
    {
        Guard g;
        x = fd_of(fd);
        if (!x) { errno = EBADF; return nullptr; }
        if (!fs.files[x->file].dir) { errno = ENOTDIR; return nullptr; }
        list_dir(*x);
        for (auto &n : x->names) observe(std::hash<std::string>{}(n));
    }
    FakeDir *d = (FakeDir *)arena_alloc(sizeof(FakeDir));
    d->fd = fd;
    return (DIR *)d;
}
EXPORT DIR *opendir(const char *p)
{
    if (!active())
    {
        REAL(opendir);
        return real_opendir(p);
    }
    int fd = fake_open(p, O_RDONLY | O_DIRECTORY);
    if (fd < 0) return nullptr;
    return fdopendir(fd);
}
EXPORT struct dirent *readdir(DIR *dd)
{
    if (!active())
    {
        REAL(readdir);
        return real_readdir(dd);
    }
    Guard g;
    FakeDir *d = (FakeDir *)dd;
    Fd *x = fd_of(d->fd);
    if (!x || x->pos >= x->names.size()) return nullptr;
    std::string n = x->names[x->pos++];
    memset(&d->ent, 0, sizeof d->ent);
    strncpy(d->ent.d_name, n.c_str(), 255);
    std::string p = fs.files[x->file].name;
    File *f = lookup(p == "/" ? "/" + n : p + "/" + n);
    d->ent.d_type = !f ? DT_UNKNOWN : f->dir ? DT_DIR : DT_REG;
    d->ent.d_ino = 1 + x->pos;
    return &d->ent;
}
EXPORT struct dirent64 *readdir64(DIR *dd) { return (struct dirent64 *)readdir(dd); }
EXPORT int dirfd(DIR *dd) noexcept
{
    if (!active())
    {
        REAL(dirfd);
        return real_dirfd(dd);
    }
    return ((FakeDir *)dd)->fd;
}
EXPORT int closedir(DIR *dd)
{
    if (!active())
    {
        REAL(closedir);
        return real_closedir(dd);
    }
    Guard g;
    FakeDir *d = (FakeDir *)dd;
    proc.fds.erase(d->fd);
    arena_free(d);
    return 0;
}

// ---------------- services ----------------
EXPORT void mc_mkdirs(const char *p)
{
    Guard g;
    mk_dirs(norm(p));
}
EXPORT int mc_file_count(const char *prefix)
{
    Guard g;
    int n = 0;
    std::string p = norm(prefix);
    for (auto &e : fs.names)
        if (!fs.files[e.second].dir && e.first.compare(0, p.size(), p) == 0) ++n;
    return n;
}
EXPORT unsigned long mc_file_size(const char *p)
{
    Guard g;
    File *f = lookup(norm(p));
    return f ? f->size : ~0ul;
}
EXPORT int mc_mapping_count()
{
    return proc.maps.size();
}
EXPORT int mc_distinct_mappings() // 0 if two live mappings share storage
{
    Guard g;
    for (size_t i = 0; i < proc.maps.size(); ++i)
        for (size_t j = 0; j < i; ++j)
            if (proc.maps[i].a < proc.maps[j].a + proc.maps[j].n && proc.maps[j].a < proc.maps[i].a + proc.maps[i].n) return 0;
    return 1;
}
EXPORT int mc_distinct_sizes() // how many different sizes the live mappings have
{
    Guard g;
    std::set<size_t> z;
    for (auto &m : proc.maps) z.insert(m.n);
    return z.size();
}
EXPORT int mc_open_fds() { return proc.fds.size(); }
EXPORT int mc_file_mapped(const char *p)
{
    Guard g;
    File *f = lookup(norm(p));
    return f ? f->maps : -1;
}
EXPORT long mc_file_list(const char *prefix, char *out, long n) // names separated by newlines
{
    Guard g;
    std::string p = norm(prefix), r;
    for (auto &e : fs.names)
        if (!fs.files[e.second].dir && e.first.compare(0, p.size(), p) == 0) r += e.first + "\n";
    strncpy(out, r.c_str(), n);
    return r.size();
}
