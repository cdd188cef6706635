/* Preloaded into the md-recover program while C12 and C13 observe it.
 *
 *  - Regular files answer the two ioctls that give a block device's size, so
 *    that image files stand in for block devices.
 *  - Files whose names ask for it fail or are read in odd ways:
 *    ".noioctl", ".eacces", ".eio", ".short", ".eintr", ".bs<N>".
 *  - Every system call that could change anything is refused by a seccomp
 *    filter and recorded in the log (descriptor 900).
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <signal.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <ucontext.h>
#include <unistd.h>

#define LOG 900

static void put(const char *s) { syscall(SYS_write, LOG, s, strlen(s)); }

static void on_sigsys(int sig, siginfo_t *si, void *uc)
{
    (void)sig;
    greg_t *r = ((ucontext_t *)uc)->uc_mcontext.gregs;
    char b[200];
    snprintf(b, sizeof b, "CALL %d %#llx %#llx %#llx\n", si->si_syscall,
             r[REG_RDI], r[REG_RSI], r[REG_RDX]);
    put(b);
    r[REG_RAX] = -EPERM;
}

#define LOAD(off) BPF_STMT(BPF_LD | BPF_W | BPF_ABS, off)
#define NR LOAD(offsetof(struct seccomp_data, nr))
#define ARG(i) LOAD(offsetof(struct seccomp_data, args[i]))
#define IF(v, t, f) BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (v), (t), (f))
#define ANY(v, t, f) BPF_JUMP(BPF_JMP | BPF_JSET | BPF_K, (v), (t), (f))
#define OK BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW)
#define TRAP BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP)

#define CHANGES (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC | O_APPEND | (O_TMPFILE & ~O_DIRECTORY))
#define REFUSE(n) IF(n, 0, 1), TRAP
/* Writing is for the standard streams and the log. */
#define WRITES(n) IF(n, 0, 7), ARG(0), IF(1, 3, 0), IF(2, 2, 0), IF(LOG, 1, 0), TRAP, OK, NR
#define OPENS(n, a) IF(n, 0, 4), ARG(a), ANY(CHANGES, 0, 1), TRAP, OK

static void filter(void)
{
    static struct sock_filter f[] = {
        LOAD(offsetof(struct seccomp_data, arch)),
        IF(AUDIT_ARCH_X86_64, 1, 0), OK,
        NR,
        WRITES(SYS_write), WRITES(SYS_writev), WRITES(SYS_pwrite64), WRITES(SYS_pwritev), WRITES(SYS_pwritev2),
        OPENS(SYS_open, 1), OPENS(SYS_openat, 2),
        /* A shared writable mapping of a file. */
        IF(SYS_mmap, 0, 8), ARG(2), ANY(2, 0, 5), ARG(3), ANY(0x20, 3, 0), ANY(1, 0, 2), TRAP, OK, OK,
        /* Discards, zeroing, read-only flags, cloning and array commands. */
        IF(SYS_ioctl, 0, 14), ARG(1),
        IF(0x1277, 11, 0), IF(0x127d, 10, 0), IF(0x127f, 9, 0), IF(0x125d, 8, 0), IF(0x125f, 7, 0), IF(0x40049409, 6, 0),
        BPF_STMT(BPF_ALU | BPF_AND | BPF_K, 0xff00), IF(0x0900, 4, 0), OK, OK, OK, OK, TRAP, 
        REFUSE(SYS_creat), REFUSE(437 /* openat2 */), REFUSE(SYS_truncate), REFUSE(SYS_ftruncate),
        REFUSE(SYS_rename), REFUSE(SYS_renameat), REFUSE(SYS_renameat2), REFUSE(SYS_mkdir), REFUSE(SYS_mkdirat),
        REFUSE(SYS_rmdir), REFUSE(SYS_link), REFUSE(SYS_linkat), REFUSE(SYS_symlink), REFUSE(SYS_symlinkat),
        REFUSE(SYS_unlink), REFUSE(SYS_unlinkat), REFUSE(SYS_chmod), REFUSE(SYS_fchmod), REFUSE(SYS_fchmodat),
        REFUSE(452 /* fchmodat2 */), REFUSE(SYS_chown), REFUSE(SYS_fchown), REFUSE(SYS_lchown), REFUSE(SYS_fchownat),
        REFUSE(SYS_utime), REFUSE(SYS_utimes), REFUSE(SYS_futimesat), REFUSE(SYS_utimensat), REFUSE(SYS_mknod),
        REFUSE(SYS_mknodat), REFUSE(SYS_setxattr), REFUSE(SYS_lsetxattr), REFUSE(SYS_fsetxattr), REFUSE(SYS_removexattr),
        REFUSE(SYS_lremovexattr), REFUSE(SYS_fremovexattr), REFUSE(SYS_fallocate), REFUSE(SYS_copy_file_range),
        REFUSE(SYS_sendfile), REFUSE(SYS_splice), REFUSE(SYS_execve), REFUSE(SYS_execveat), REFUSE(SYS_mount),
        REFUSE(SYS_umount2), REFUSE(425 /* io_uring_setup */), REFUSE(SYS_kill), REFUSE(SYS_ptrace), REFUSE(SYS_reboot),
        OK,
    };
    struct sock_fprog p = { sizeof f / sizeof *f, f };
    if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) == 0 && prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p) == 0)
        put("FILTER\n");
    else
        put("NOFILTER\n");
}

__attribute__((constructor)) static void start(void)
{
    const char *log = getenv("MDV_LOG");
    if (!log)
        return;
    int fd = syscall(SYS_openat, AT_FDCWD, log, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
    if (fd < 0 || dup3(fd, LOG, O_CLOEXEC) != LOG)
        _exit(99);
    close(fd);
    unsetenv("MDV_LOG");
    unsetenv("LD_PRELOAD");
    struct rlimit cpu = { 30, 40 }, mem = { 4ull << 30, 4ull << 30 }, core = { 0, 0 };
    setrlimit(RLIMIT_CPU, &cpu);
    setrlimit(RLIMIT_AS, &mem);
    setrlimit(RLIMIT_CORE, &core);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_sigsys;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    sigaction(SIGSYS, &sa, 0);
    filter();
    if (getenv("MDV_SELFTEST")) {
        /* Shows that the filter and the log work. */
        syscall(SYS_unlink, "/nonexistent/mdv");
        syscall(SYS_openat, AT_FDCWD, "/nonexistent/mdv", O_RDWR, 0);
        syscall(SYS_pwrite64, 0, "", 0, 0);
        syscall(SYS_ioctl, -1, 0x1277, 0);
        syscall(SYS_mmap, 0, 4096, 3, 1, -1, 0);
        syscall(SYS_ftruncate, -1, 0);
        _exit(0);
    }
}

static const char *name_of(int fd)
{
    static __thread char b[4200];
    char p[64];
    snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
    ssize_t n = syscall(SYS_readlink, p, b, sizeof b - 1);
    if (n < 0)
        return "";
    b[n] = 0;
    const char *s = strrchr(b, '/');
    return s ? s : b;
}

static int special(int fd, const char *what) { return fd > 2 && fd != LOG && strstr(name_of(fd), what) != 0; }

int ioctl(int fd, unsigned long req, ...)
{
    va_list ap;
    va_start(ap, req);
    void *arg = va_arg(ap, void *);
    va_end(ap);
    struct stat st;
    if ((req == 0x80081272 || req == 0x127b) && fstat(fd, &st) == 0 && S_ISREG(st.st_mode)) {
        if (special(fd, ".noioctl")) {
            errno = ENOTTY;
            return -1;
        }
        if (req == 0x80081272) {
            *(uint64_t *)arg = st.st_size;
            put("SIZE\n");
        } else {
            const char *bs = strstr(name_of(fd), ".bs");
            *(uint32_t *)arg = bs ? atoi(bs + 3) : 512;
            put("BLOCKSIZE\n");
        }
        return 0;
    }
    return syscall(SYS_ioctl, fd, req, arg);
}

static int opened(int at, const char *path, int flags, int mode)
{
    const char *s = strrchr(path, '/');
    if (strstr(s ? s : path, ".eacces")) {
        errno = EACCES;
        return -1;
    }
    char b[64];
    snprintf(b, sizeof b, "OPEN %#x\n", flags);
    put(b);
    return syscall(SYS_openat, at, path, flags, mode);
}

#define MODE(flags) \
    int mode = 0; \
    if (flags & (O_CREAT | (O_TMPFILE & ~O_DIRECTORY))) { \
        va_list ap; \
        va_start(ap, flags); \
        mode = va_arg(ap, int); \
        va_end(ap); \
    }
int open(const char *path, int flags, ...) { MODE(flags) return opened(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { MODE(flags) return opened(AT_FDCWD, path, flags, mode); }
int openat(int at, const char *path, int flags, ...) { MODE(flags) return opened(at, path, flags, mode); }
int openat64(int at, const char *path, int flags, ...) { MODE(flags) return opened(at, path, flags, mode); }

/* 0 to go on, or -1 with errno set; may shorten the length. */
static int odd(int fd, size_t *len)
{
    static __thread unsigned turn;
    if (fd <= 2 || fd == LOG)
        return 0;
    put("READ\n");
    if (special(fd, ".eio")) {
        errno = EIO;
        return -1;
    }
    if (special(fd, ".eintr") && turn++ % 2 == 0) {
        errno = EINTR;
        return -1;
    }
    size_t some = 100 + turn % 57;
    if (special(fd, ".short") && *len > some) {
        *len = some;
        turn++;
    }
    return 0;
}

ssize_t read(int fd, void *b, size_t n) { return odd(fd, &n) ? -1 : syscall(SYS_read, fd, b, n); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return odd(fd, &n) ? -1 : syscall(SYS_pread64, fd, b, n, o); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return odd(fd, &n) ? -1 : syscall(SYS_pread64, fd, b, n, o); }
ssize_t readv(int fd, const struct iovec *v, int n)
{
    size_t len = -1;
    return odd(fd, &len) ? -1 : syscall(SYS_readv, fd, v, n);
}
