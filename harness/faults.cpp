// Stands in for the file operations of a program, to make chosen ones fail.
// VERIF_FAULT is "class operation first count how": among the operations of
// that class of file (out, table, input), those numbered first, first+1, ...
// (count of them, all that follow if 0) go wrong as how says:
//   ENOSPC EIO EACCES EMFILE EINTR   fail with that error
//   short                            only part is read or written
//   full                             the first is short, the others fail with ENOSPC
//   cut                              the file seems to end here
//   die                              the program is killed before the operation
//   torn                             it is killed when part is written
// VERIF_FAULT_LOG names the file that records every operation of these classes,
// one line each: class operation outcome.
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <string>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>

namespace
{
enum { NONE, OUTPUT, TABLE, INPUT };
const char* classes[] = {"", "out", "table", "input"};
const char* kinds[] = {"open", "read", "write", "trunc", "close"};
enum { OPEN, READ, WRITE, TRUNC, CLOSE };
unsigned char fds[4096];
long seen[4][5];
bool ready = false, cut[4096];
int planClass = NONE, planKind = -1, logFd = -1;
long planFirst = 0, planCount = 0;
char how[16];        // no object: used before constructors run
pthread_mutex_t mutex = PTHREAD_MUTEX_INITIALIZER;

template <class F> F Real(const char* name, F)
{
    return (F)dlsym(RTLD_NEXT, name);
}
#define REAL(f) Real(#f, f)

bool Ends(const char* path, const char* end)
{
    size_t a = strlen(path), b = strlen(end);
    return a >= b && !strcmp(path + a - b, end);
}
int ClassOf(const char* path)
{
    return Ends(path, ".h5") ? OUTPUT : Ends(path, ".table") ? TABLE : Ends(path, ".ini") ? INPUT : NONE;
}
void Prepare()
{
    if (ready) return;
    ready = true;
    if (const char* p = getenv("VERIF_FAULT"))
    {
        char c[16], k[16], h[16];
        if (sscanf(p, "%15s %15s %ld %ld %15s", c, k, &planFirst, &planCount, h) != 5) _exit(90);
        for (int i = 1; i < 4; i++) if (!strcmp(c, classes[i])) planClass = i;
        for (int i = 0; i < 5; i++) if (!strcmp(k, kinds[i])) planKind = i;
        strcpy(how, h);
        if (planClass == NONE || planKind < 0) _exit(90);
    }
    if (const char* p = getenv("VERIF_FAULT_LOG"))
        logFd = REAL(open)(p, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
}
int Code(const std::string& h)
{
    return h == "ENOSPC" ? ENOSPC : h == "EIO" ? EIO : h == "EACCES" ? EACCES : h == "EMFILE" ? EMFILE : h == "EINTR" ? EINTR : 0;
}
void Log(int cls, int kind, const char* outcome)
{
    if (logFd < 0) return;
    char t[64];
    int n = snprintf(t, sizeof t, "%s %s %s\n", classes[cls], kinds[kind], outcome);
    ssize_t (*w)(int, const void*, size_t) = REAL(write);
    if (w(logFd, t, n) != n) _exit(91);
}
// what to do with the next operation: "" as asked, else how it goes wrong
std::string Meet(int cls, int kind, bool divides)
{
    Prepare();
    pthread_mutex_lock(&mutex);
    long n = ++seen[cls][kind];
    std::string h;
    if (cls == planClass && kind == planKind && n >= planFirst && (planCount == 0 || n < planFirst + planCount))
        h = !strcmp(how, "full") ? (n == planFirst && divides ? "short" : "ENOSPC") : std::string(how);
    if (h == "short" && !divides) h = "";
    if (h == "torn" && !divides) h = "die";
    pthread_mutex_unlock(&mutex);
    if (h == "die") { kill(getpid(), SIGKILL); _exit(92); }
    return h;
}
int Class(int fd) { return fd >= 0 && fd < 4096 ? fds[fd] : NONE; }
void Keep(int fd, int cls) { if (fd >= 0 && fd < 4096) { fds[fd] = cls; cut[fd] = false; } }

template <class F> ssize_t Transfer(int fd, int kind, size_t n, F go)
{
    int cls = Class(fd);
    if (cls == NONE) return go(n);
    std::string h = Meet(cls, kind, n > 1);
    if (cut[fd] && kind == READ) h = "cut";
    if (h == "cut") { cut[fd] = true; Log(cls, kind, "cut"); return 0; }
    if (h == "torn") { go(n / 2); kill(getpid(), SIGKILL); _exit(92); }
    if (h == "short") { ssize_t k = go(n / 2); Log(cls, kind, "part"); return k; }
    if (h == "") { ssize_t k = go(n); Log(cls, kind, k >= 0 ? "done" : "fail"); return k; }
    Log(cls, kind, h == "EINTR" ? "again" : "fail");
    errno = Code(h);
    return -1;
}
int Open(const char* path, int flags, mode_t mode, bool wide)
{
    Prepare();
    int cls = ClassOf(path);
    if (cls != NONE)
    {
        std::string h = Meet(cls, OPEN, false);
        if (h != "") { Log(cls, OPEN, "fail"); errno = Code(h); return -1; }
    }
    int fd = wide ? REAL(open64)(path, flags, mode) : REAL(open)(path, flags, mode);
    if (cls != NONE) { Log(cls, OPEN, fd >= 0 ? "done" : "none"); Keep(fd, cls); }
    return fd;
}
ssize_t CookieRead(void* c, char* b, size_t n) { return read((int)(long)c, b, n); }
int CookieClose(void* c) { return close((int)(long)c); }
int CookieSeek(void* c, off64_t* o, int w) { *o = lseek64((int)(long)c, *o, w); return *o < 0 ? -1 : 0; }
// the C++ library reads from the descriptor of what it opens, others from the FILE
bool ByDescriptor(void* caller)
{
    Dl_info i;
    return dladdr(caller, &i) && i.dli_fname && strstr(i.dli_fname, "libstdc++");
}
FILE* FOpen(const char* path, const char* mode, bool wide, void* caller)
{
    Prepare();
    int cls = ClassOf(path);
    if (cls == NONE || mode[0] != 'r') return wide ? REAL(fopen64)(path, mode) : REAL(fopen)(path, mode);
    if (ByDescriptor(caller))
    {
        std::string h = Meet(cls, OPEN, false);
        if (h != "") { Log(cls, OPEN, "fail"); errno = Code(h); return nullptr; }
        FILE* f = wide ? REAL(fopen64)(path, mode) : REAL(fopen)(path, mode);
        Log(cls, OPEN, f ? "done" : "none");
        if (f) Keep(fileno(f), cls);
        return f;
    }
    int fd = Open(path, O_RDONLY, 0, false);
    if (fd < 0) return nullptr;
    cookie_io_functions_t io = {CookieRead, nullptr, CookieSeek, CookieClose};
    return fopencookie((void*)(long)fd, mode, io);
}
}

extern "C"
{
int open(const char* path, int flags, ...)
{
    va_list a; va_start(a, flags); mode_t m = (flags & O_CREAT) ? va_arg(a, mode_t) : 0; va_end(a);
    return Open(path, flags, m, false);
}
int open64(const char* path, int flags, ...)
{
    va_list a; va_start(a, flags); mode_t m = (flags & O_CREAT) ? va_arg(a, mode_t) : 0; va_end(a);
    return Open(path, flags, m, true);
}
FILE* fopen(const char* path, const char* mode) { return FOpen(path, mode, false, __builtin_return_address(0)); }
FILE* fopen64(const char* path, const char* mode) { return FOpen(path, mode, true, __builtin_return_address(0)); }
ssize_t read(int fd, void* b, size_t n) { return Transfer(fd, READ, n, [=](size_t k) { return REAL(read)(fd, b, k); }); }
ssize_t pread(int fd, void* b, size_t n, off_t o) { return Transfer(fd, READ, n, [=](size_t k) { return REAL(pread)(fd, b, k, o); }); }
ssize_t pread64(int fd, void* b, size_t n, off64_t o) { return Transfer(fd, READ, n, [=](size_t k) { return REAL(pread64)(fd, b, k, o); }); }
ssize_t write(int fd, const void* b, size_t n) { return Transfer(fd, WRITE, n, [=](size_t k) { return REAL(write)(fd, b, k); }); }
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { return Transfer(fd, WRITE, n, [=](size_t k) { return REAL(pwrite)(fd, b, k, o); }); }
ssize_t pwrite64(int fd, const void* b, size_t n, off64_t o) { return Transfer(fd, WRITE, n, [=](size_t k) { return REAL(pwrite64)(fd, b, k, o); }); }
int ftruncate(int fd, off_t n) { return (int)Transfer(fd, TRUNC, 0, [=](size_t) -> ssize_t { return REAL(ftruncate)(fd, n); }); }
int ftruncate64(int fd, off64_t n) { return (int)Transfer(fd, TRUNC, 0, [=](size_t) -> ssize_t { return REAL(ftruncate64)(fd, n); }); }
int fclose(FILE* f)
{
    int (*c)(FILE*) = REAL(fclose);
    int fd = fileno(f);
    if (fd >= 0 && Class(fd) != OUTPUT) Keep(fd, NONE);
    return c(f);
}
int close(int fd)
{
    int cls = Class(fd);
    if (cls != OUTPUT) { Keep(fd, NONE); return REAL(close)(fd); }
    std::string h = Meet(cls, CLOSE, false);
    int r = REAL(close)(fd);
    Keep(fd, NONE);
    Log(cls, CLOSE, h == "" && r == 0 ? "done" : "fail");
    if (h == "") return r;
    errno = Code(h);
    return -1;
}
}
