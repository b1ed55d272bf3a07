/* The simulator that bic is linked with (see DESIGN.md).
 *
 * It owns every source of nondeterminism and every fault that bic can meet:
 *
 *  - when the collector runs            (bic_sim_gc_point, the BIC_SIM hook)
 *  - where objects are placed and what unused memory holds (malloc family)
 *  - allocation failures                (--wrap'ed malloc family of bic itself)
 *  - the preprocessor                   (system, popen, pclose)
 *  - temporary files                    (mkstemps, unlink, fdopen, read, write)
 *  - the terminal                       (rl_getc_function and friends)
 *  - the completion helper process      (pipe, fork, read, write, waitpid)
 *  - the dynamic linker                 (dlsym, dlopen)
 *  - native code that calls back        (sim_on*, sim_run: an event loop)
 *
 * All decisions come from the plan file that $BICSIM_PLAN names: a run is a
 * function of the plan and the code.  What happened is recorded in the (shared)
 * log file that the plan names. */
#define _GNU_SOURCE
#include <ctype.h>
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <readline/readline.h>

#define EXPORT __attribute__((visibility("default")))

/* ------------------------------------------------------------------ log */

#define LOG_SZ (3u << 20)

struct region {
    char magic[8];
    uint64_t gc_points, gc_collects, gc_hash;
    uint64_t allocs, frees, live, peak;
    uint64_t bic_allocs;
    uint64_t heap_errors;
    uint64_t exit_seen;
    uint64_t chunks;
    uint32_t loglen, truncated;
    char log[LOG_SZ];
};

static struct region fallback_region, *S = &fallback_region;
static struct region *parent_region, *child_region;
static int in_child;

static void vev(const char *fmt, va_list ap)
{
    char buf[2048];
    int n = vsnprintf(buf, sizeof(buf), fmt, ap);

    if (n > (int)sizeof(buf) - 2)
        n = sizeof(buf) - 2;
    buf[n++] = '\n';
    if (S->loglen + n > LOG_SZ) {
        S->truncated = 1;
        return;
    }
    memcpy(S->log + S->loglen, buf, n);
    S->loglen += n;
}

static void __attribute__((format(printf, 1, 2))) ev(const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    vev(fmt, ap);
    va_end(ap);
}

static uint64_t mix(uint64_t *s)
{
    uint64_t z = (*s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

/* ----------------------------------------------------------------- plan */

enum { GC_NATURAL, GC_NEVER, GC_EVERY, GC_LIST, GC_BERN, GC_PERIOD };
enum { PL_BUMP, PL_LIFO, PL_FIFO, PL_RAND };

static struct {
    int active;
    char scratch[512];
    int gc;
    uint64_t gc_rng, gc_p, gc_k, gc_off;
    uint64_t *gc_list;
    size_t gc_n, gc_i;
    int gc_log;
    int place, fill /* -1 stale, -2 random, else byte */, poison /* -1 none */;
    uint64_t heap_rng;
    uint64_t steps;
    int chunk;
    uint64_t chunk_rng;
    int cpp_real;
    int completion_log;
} P = { .gc = GC_NATURAL, .place = PL_LIFO, .fill = -1, .poison = -1 };

struct fault {
    char site[24], action[24];
    long nth;
    long a, b;
    int fired;
};
static struct fault faults[256];
static int n_faults;

static struct { char site[24]; long n; } counts[64];
static int n_counts;

static long count_site(const char *site)
{
    int i;
    for (i = 0; i < n_counts; i++)
        if (!strcmp(counts[i].site, site))
            return ++counts[i].n;
    if (n_counts == 64)
        return 0;
    strcpy(counts[n_counts].site, site);
    return counts[n_counts++].n = 1;
}

/* Is a fault planned for this occurrence of the site? */
static struct fault *fault_at(const char *site)
{
    long n;
    int i;

    if (!P.active)
        return NULL;
    n = count_site(site);
    for (i = 0; i < n_faults; i++) {
        struct fault *f = &faults[i];
        if (strcmp(f->site, site))
            continue;
        if (f->nth == n || (f->nth < n && f->action[0] == '+')) {
            f->fired++;
            ev("FAULT %s %ld %s %ld %ld", site, n, f->action, f->a, f->b);
            return f;
        }
    }
    return NULL;
}

#define IS(f, act) ((f) && !strcmp((f)->action, act))

/* ------------------------------------------------------------ allocator */

#define ARENA_BASE ((char *)0x100000000000ull)
#define ARENA_SZ (12ull << 30)
#define H_LIVE 0x4c495645u
#define H_FREE 0x46524545u
#define CANARY 0xc5

struct hdr {
    uint64_t size;              /* requested */
    uint32_t cls, state;
    struct hdr *next, *prev;    /* free list */
};

#define HDR sizeof(struct hdr)
#define NCLS 1100

static char *arena_ptr;
static struct hdr *free_head[NCLS], *free_tail[NCLS];
static uint32_t free_count[NCLS];

/* Sizes (with the canary) are rounded to 16 up to 16K, then to powers of 2. */
static unsigned cls_of(size_t n, size_t *cap)
{
    size_t c;
    unsigned k;

    if (n <= 16384) {
        c = (n + 15) & ~15ull;
        *cap = c;
        return c / 16;
    }
    c = 32768;
    k = 1030;
    while (c < n) {
        c <<= 1;
        k++;
    }
    *cap = c;
    return k;
}

static size_t cls_cap(unsigned k)
{
    return k < 1030 ? k * 16ul : 32768ull << (k - 1030);
}

static void heap_error(const char *what, void *p, size_t sz)
{
    S->heap_errors++;
    ev("HEAP %s off=%ld size=%zu", what, (long)((char *)p - ARENA_BASE), sz);
}

static void arena_init(void)
{
    arena_ptr = mmap(ARENA_BASE, ARENA_SZ, PROT_READ | PROT_WRITE,
                     MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE |
                     MAP_FIXED_NOREPLACE, -1, 0);
    if (arena_ptr != ARENA_BASE)
        _exit(98);
}

static void fill_mem(unsigned char *p, size_t n)
{
    size_t i;

    if (P.fill == -1)
        return;
    if (n > 1 << 20)
        n = 1 << 20;
    if (P.fill == -2) {
        for (i = 0; i < n; i += 8) {
            uint64_t r = mix(&P.heap_rng);
            memcpy(p + i, &r, n - i < 8 ? n - i : 8);
        }
    } else
        memset(p, P.fill, n);
}

static int check_poison(struct hdr *h)
{
    unsigned char *p = (unsigned char *)(h + 1);
    size_t i, n = h->size;

    if (P.poison < 0)
        return 1;
    if (n > 1 << 20)
        n = 1 << 20;
    for (i = 0; i < n; i++)
        if (p[i] != P.poison) {
            heap_error("write-after-free", p + i, h->size);
            return 0;
        }
    return 1;
}

static struct hdr *take_free(unsigned k)
{
    struct hdr *h = NULL;

    if (!free_head[k])
        return NULL;
    switch (P.place) {
    case PL_BUMP:
        return NULL;
    case PL_LIFO:
        h = free_head[k];
        break;
    case PL_FIFO:
        if (free_count[k] < 64)
            return NULL;
        h = free_tail[k];
        break;
    case PL_RAND: {
        uint64_t r = mix(&P.heap_rng);
        unsigned i = (r >> 8) % (free_count[k] < 8 ? free_count[k] : 8);
        if ((r & 3) == 0)
            return NULL;
        for (h = free_head[k]; i--; h = h->next)
            ;
        break;
    }
    }
    if (h->prev)
        h->prev->next = h->next;
    else
        free_head[k] = h->next;
    if (h->next)
        h->next->prev = h->prev;
    else
        free_tail[k] = h->prev;
    free_count[k]--;
    return h;
}

static void *sim_alloc(size_t n)
{
    size_t cap;
    unsigned k;
    struct hdr *h;
    unsigned char *p;

    if (!arena_ptr)
        arena_init();
    if (n > 1ull << 34) {
        errno = ENOMEM;
        return NULL;
    }
    k = cls_of(n + 8, &cap);
    h = take_free(k);
    if (h) {
        check_poison(h);
    } else {
        if (arena_ptr + HDR + cap > ARENA_BASE + ARENA_SZ) {
            errno = ENOMEM;
            return NULL;
        }
        h = (struct hdr *)arena_ptr;
        arena_ptr += HDR + cap;
    }
    h->size = n;
    h->cls = k;
    h->state = H_LIVE;
    h->next = h->prev = NULL;
    p = (unsigned char *)(h + 1);
    fill_mem(p, n);
    memset(p + n, CANARY, cap - n < 16 ? cap - n : 16);
    S->allocs++;
    S->live += n;
    if (S->live > S->peak)
        S->peak = S->live;
    return p;
}

static struct hdr *hdr_of(void *p, const char *who)
{
    struct hdr *h = (struct hdr *)p - 1;

    if ((char *)p < ARENA_BASE + HDR || (char *)p >= arena_ptr || ((uintptr_t)p & 15)
        || (h->state != H_LIVE && h->state != H_FREE)) {
        heap_error(who, p, 0);
        return NULL;
    }
    if (h->state == H_FREE) {
        heap_error("double-free", p, h->size);
        return NULL;
    }
    return h;
}

static void check_canary(struct hdr *h)
{
    unsigned char *p = (unsigned char *)(h + 1) + h->size;
    size_t cap = cls_cap(h->cls), n = cap - h->size < 16 ? cap - h->size : 16, i;

    for (i = 0; i < n; i++)
        if (p[i] != CANARY) {
            heap_error("overflow", p + i, h->size);
            return;
        }
}

static void sim_free(void *p)
{
    struct hdr *h;
    unsigned k;

    if (!p)
        return;
    h = hdr_of(p, "invalid-free");
    if (!h)
        return;
    check_canary(h);
    h->state = H_FREE;
    S->frees++;
    S->live -= h->size;
    if (P.poison >= 0)
        memset(p, P.poison, h->size > 1 << 20 ? 1 << 20 : h->size);
    else if (h->size > 65536)
        ; /* stale */
    k = h->cls;
    h->next = free_head[k];
    h->prev = NULL;
    if (free_head[k])
        free_head[k]->prev = h;
    else
        free_tail[k] = h;
    free_head[k] = h;
    free_count[k]++;
}

/* At the end: has anyone written where they shouldn't have? */
static void heap_final_check(void)
{
    char *q = ARENA_BASE;

    while (q && q < arena_ptr) {
        struct hdr *h = (struct hdr *)q;
        if (h->state == H_LIVE)
            check_canary(h);
        else if (h->state == H_FREE)
            check_poison(h);
        else {
            heap_error("corrupt-header", q, 0);
            return;
        }
        q += HDR + cls_cap(h->cls);
    }
}

EXPORT void *malloc(size_t n)
{
    return sim_alloc(n);
}

EXPORT void free(void *p)
{
    int e = errno;
    sim_free(p);
    errno = e;
}

EXPORT void *calloc(size_t a, size_t b)
{
    size_t n;
    void *p;

    if (__builtin_mul_overflow(a, b, &n)) {
        errno = ENOMEM;
        return NULL;
    }
    p = sim_alloc(n);
    if (p)
        memset(p, 0, n);
    return p;
}

EXPORT void *realloc(void *p, size_t n)
{
    struct hdr *h;
    void *q;

    if (!p)
        return sim_alloc(n);
    h = hdr_of(p, "invalid-realloc");
    if (!h)
        return NULL;
    q = sim_alloc(n);
    if (!q)
        return NULL;
    memcpy(q, p, h->size < n ? h->size : n);
    sim_free(p);
    return q;
}

EXPORT void *memalign(size_t al, size_t n)
{
    char *p;

    if (al <= 16)
        return sim_alloc(n);
    /* Never reused: only libc and ld.so ask for this, a few times. */
    if (!arena_ptr)
        arena_init();
    p = sim_alloc(n + al + HDR);
    (void)p;
    {
        char *q = (char *)(((uintptr_t)p + HDR + al - 1) & ~(al - 1));
        struct hdr *h = (struct hdr *)q - 1;
        /* A header that makes free() a no-op for the inner pointer. */
        memset(h, 0, sizeof(*h));
        h->state = H_LIVE;
        h->size = n;
        h->cls = 0;
        return q;
    }
}

EXPORT int posix_memalign(void **out, size_t al, size_t n)
{
    *out = memalign(al, n);
    return *out ? 0 : ENOMEM;
}

EXPORT void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
EXPORT void *valloc(size_t n) { return memalign(4096, n); }
EXPORT void *pvalloc(size_t n) { return memalign(4096, n); }

EXPORT size_t malloc_usable_size(void *p)
{
    return p ? ((struct hdr *)p - 1)->size : 0;
}

/* ------------------------------------ allocations made by bic's own code */

static int alloc_fails(void)
{
    struct fault *f;

    S->bic_allocs++;
    f = fault_at("alloc");
    if (f) {
        errno = ENOMEM;
        return 1;
    }
    return 0;
}

void *__wrap_malloc(size_t n) { return alloc_fails() ? NULL : malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { return alloc_fails() ? NULL : calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { return alloc_fails() ? NULL : realloc(p, n); }

char *__wrap_strdup(const char *s)
{
    size_t n = strlen(s) + 1;
    char *p;

    if (alloc_fails())
        return NULL;
    p = malloc(n);
    return p ? memcpy(p, s, n) : NULL;
}

char *__wrap_strndup(const char *s, size_t max)
{
    size_t n = strnlen(s, max);
    char *p;

    if (alloc_fails())
        return NULL;
    p = malloc(n + 1);
    if (p) {
        memcpy(p, s, n);
        p[n] = 0;
    }
    return p;
}

int __wrap_vasprintf(char **out, const char *fmt, va_list ap)
{
    if (alloc_fails()) {
        *out = (char *)0xbad0bad0bad0ull;   /* "contents undefined" */
        return -1;
    }
    return vasprintf(out, fmt, ap);
}

int __wrap_asprintf(char **out, const char *fmt, ...)
{
    va_list ap;
    int r;

    va_start(ap, fmt);
    r = __wrap_vasprintf(out, fmt, ap);
    va_end(ap);
    return r;
}

/* ------------------------------------------------------------- collector */

int bic_sim_gc_point(void)
{
    int d = -1;
    uint64_t n = ++S->gc_points;

    if (P.steps && n > P.steps) {
        ev("STEPCAP");
        _exit(97);
    }
    switch (P.gc) {
    case GC_NATURAL:
        return -1;
    case GC_NEVER:
        return 0;
    case GC_EVERY:
        d = 1;
        break;
    case GC_LIST:
        d = 0;
        while (P.gc_i < P.gc_n && P.gc_list[P.gc_i] < n)
            P.gc_i++;
        if (P.gc_i < P.gc_n && P.gc_list[P.gc_i] == n)
            d = 1;
        break;
    case GC_BERN:
        d = mix(&P.gc_rng) % 1000 < P.gc_p;
        break;
    case GC_PERIOD:
        d = n % P.gc_k == P.gc_off;
        break;
    }
    if (d == 1) {
        S->gc_collects++;
        S->gc_hash = (S->gc_hash ^ n) * 0x100000001b3ull;
        if (P.gc_log)
            ev("gc %lu", (unsigned long)n);
    }
    return d;
}

/* ------------------------------------------------------- temporary files */

#define MAXFD 1024
static char fd_kind[MAXFD];     /* 't' temp file, 'p' pipe */
static int n_tmp;

static char *xlate(const char *name, char *buf)
{
    if (P.active && !strncmp(name, "/tmp/", 5) &&
        strncmp(name, P.scratch, strlen(P.scratch)))
        snprintf(buf, 1024, "%s/tmp/%s", P.scratch, name + 5);
    else
        snprintf(buf, 1024, "%s", name);
    return buf;
}

static int make_tmp(char *tmpl, int suffix, const char *site)
{
    struct fault *f = fault_at(site);
    char path[1024];
    size_t len = strlen(tmpl);
    int fd;

    if (f) {
        errno = f->a ? f->a : EMFILE;
        return -1;
    }
    if (len < (size_t)suffix + 6 ||
        strncmp(tmpl + len - suffix - 6, "XXXXXX", 6)) {
        errno = EINVAL;
        return -1;
    }
    do {
        char num[16];
        snprintf(num, sizeof(num), "%06d", ++n_tmp);
        memcpy(tmpl + len - suffix - 6, num, 6);
        fd = open(xlate(tmpl, path), O_RDWR | O_CREAT | O_EXCL, 0600);
    } while (fd == -1 && errno == EEXIST);
    if (fd >= 0 && fd < MAXFD)
        fd_kind[fd] = 't';
    ev("mktemp %s fd=%d", tmpl, fd);
    return fd;
}

int __wrap_mkstemps(char *tmpl, int suffix) { return make_tmp(tmpl, suffix, "mkstemp"); }
int __wrap_mkstemp(char *tmpl) { return make_tmp(tmpl, 0, "mkstemp"); }
int __wrap_mkostemps(char *tmpl, int suffix, int fl) { (void)fl; return make_tmp(tmpl, suffix, "mkstemp"); }
int __wrap_mkostemp(char *tmpl, int fl) { (void)fl; return make_tmp(tmpl, 0, "mkstemp"); }

int __wrap_unlink(const char *name)
{
    char path[1024];
    ev("unlink %s", name);
    return unlink(xlate(name, path));
}

int __wrap_remove(const char *name) { return __wrap_unlink(name); }

FILE *__wrap_fopen(const char *name, const char *mode)
{
    char path[1024];
    return fopen(xlate(name, path), mode);
}

int __wrap_open(const char *name, int flags, ...)
{
    char path[1024];
    int mode = 0;
    if (flags & O_CREAT) {
        va_list ap;
        va_start(ap, flags);
        mode = va_arg(ap, int);
        va_end(ap);
    }
    return open(xlate(name, path), flags, mode);
}

ssize_t __wrap_write(int fd, const void *buf, size_t n)
{
    struct fault *f;
    const char *site;
    size_t want = n;

    if (fd < 0 || fd >= MAXFD || !fd_kind[fd])
        return write(fd, buf, n);
    site = fd_kind[fd] == 't' ? "filewrite" : "pipewrite";
    f = fault_at(site);
    if (IS(f, "err")) {
        errno = f->a;
        return -1;
    }
    if (IS(f, "die")) {
        raise(f->a);
    }
    if (IS(f, "diepart")) {
        if (write(fd, buf, n / 2) < 0)
            _exit(96);
        raise(f->a);
    }
    if (IS(f, "exit"))
        _exit(f->a);
    if (IS(f, "short") && n > 1)
        want = (size_t)f->a < n ? (f->a ? f->a : 1) : n - 1;
    else if (P.chunk && n > 1) {
        want = 1 + mix(&P.chunk_rng) % n;
        S->chunks += want < n;
    }
    return write(fd, buf, want);
}

/* A read of a pipe returns what the plan says, not what has arrived so far. */
ssize_t __wrap_read(int fd, void *buf, size_t n)
{
    struct fault *f;
    size_t want = n, got = 0;

    if (fd < 0 || fd >= MAXFD || fd_kind[fd] != 'p')
        return read(fd, buf, n);
    f = fault_at("piperead");
    if (IS(f, "err")) {
        errno = f->a;
        return -1;
    }
    if (IS(f, "short") && n > 1)
        want = (size_t)f->a < n ? (f->a ? f->a : 1) : n - 1;
    else if (P.chunk && n > 1) {
        want = 1 + mix(&P.chunk_rng) % n;
        S->chunks += want < n;
    }
    while (got < want) {
        ssize_t r = read(fd, (char *)buf + got, want - got);
        if (r == -1 && errno == EINTR)
            continue;
        if (r <= 0)
            break;
        got += r;
    }
    return got;
}

int __wrap_close(int fd)
{
    int kind = fd >= 0 && fd < MAXFD ? fd_kind[fd] : 0;

    if (kind) {
        struct fault *f = fault_at(kind == 't' ? "fileclose" : "pipeclose");
        fd_kind[fd] = 0;
        if (IS(f, "err")) {
            close(fd);
            errno = f->a;
            return -1;
        }
    }
    return close(fd);
}

/* Streams that bic reads: short reads and I/O errors at a chosen offset. */
struct stream {
    int fd;
    size_t pos, eio_at;
    int has_eio;
    char *data;                 /* popen: the output of the preprocessor */
    size_t len;
    int status;
    FILE *real;
};

static ssize_t stream_read(void *c, char *buf, size_t n)
{
    struct stream *s = c;
    ssize_t r;

    if (P.chunk && n > 1) {
        size_t w = 1 + mix(&P.chunk_rng) % (n < 600 ? n : 600);
        S->chunks += w < n;
        n = w;
    }
    if (s->has_eio) {
        if (s->pos >= s->eio_at) {
            errno = EIO;
            return -1;
        }
        if (s->pos + n > s->eio_at)
            n = s->eio_at - s->pos;
    }
    if (s->data) {
        r = s->len - s->pos < n ? s->len - s->pos : n;
        memcpy(buf, s->data + s->pos, r);
    } else {
        r = read(s->fd, buf, n);
        if (r < 0)
            return r;
    }
    s->pos += r;
    return r;
}

static int stream_close(void *c)
{
    struct stream *s = c;

    if (s->fd >= 0) {
        if (s->fd < MAXFD)
            fd_kind[s->fd] = 0;
        close(s->fd);
    }
    return 0;
}

FILE *__wrap_fdopen(int fd, const char *mode)
{
    struct fault *f;
    struct stream *s;
    FILE *ret;

    if (fd < 0 || fd >= MAXFD || !fd_kind[fd] || *mode != 'r' || mode[1] == '+')
        return fdopen(fd, mode);
    f = fault_at("fdopen");
    if (IS(f, "err")) {
        errno = f->a;
        return NULL;
    }
    if (!P.chunk && !IS(f, "eio"))
        return fdopen(fd, mode);
    s = calloc(1, sizeof(*s));
    s->fd = fd;
    if (IS(f, "eio")) {
        s->has_eio = 1;
        s->eio_at = f->a;
    }
    ret = fopencookie(s, "r", (cookie_io_functions_t){
            .read = stream_read, .close = stream_close });
    return ret;
}

/* ---------------------------------------------------------- preprocessor */

struct out { char *p; size_t n, cap; };

static void out_add(struct out *o, const char *s, size_t n)
{
    if (o->n + n + 1 > o->cap) {
        o->cap = (o->n + n + 1) * 2;
        o->p = realloc(o->p, o->cap);
    }
    memcpy(o->p + o->n, s, n);
    o->n += n;
    o->p[o->n] = 0;
}

static void out_str(struct out *o, const char *s) { out_add(o, s, strlen(s)); }

struct macro { char name[64]; char body[256]; };

struct cpp {
    struct out out;
    int markers, errors, depth;
    char dirs[16][512];
    int n_dirs;
    struct macro m[128];
    int n_m;
};

static char *slurp(const char *path)
{
    char buf[1024];
    struct out o = { 0 };
    ssize_t r;
    int fd = open(xlate(path, buf), O_RDONLY);

    if (fd < 0)
        return NULL;
    out_str(&o, "");
    if (!o.p)
        o.p = calloc(1, 1);
    while ((r = read(fd, buf, sizeof(buf))) > 0)
        out_add(&o, buf, r);
    close(fd);
    return o.p;
}

static void cpp_expand(struct cpp *c, const char *s, size_t n, int depth)
{
    size_t i = 0;

    while (i < n) {
        if (s[i] == '"' || s[i] == '\'') {
            char q = s[i];
            size_t j = i + 1;
            while (j < n && s[j] != q) {
                if (s[j] == '\\' && j + 1 < n)
                    j++;
                j++;
            }
            if (j < n)
                j++;
            out_add(&c->out, s + i, j - i);
            i = j;
        } else if (isalpha((unsigned char)s[i]) || s[i] == '_') {
            size_t j = i;
            int k, hit = 0;
            while (j < n && (isalnum((unsigned char)s[j]) || s[j] == '_'))
                j++;
            for (k = 0; k < c->n_m && depth < 8; k++)
                if (strlen(c->m[k].name) == j - i && !strncmp(c->m[k].name, s + i, j - i)) {
                    cpp_expand(c, c->m[k].body, strlen(c->m[k].body), depth + 1);
                    hit = 1;
                    break;
                }
            if (!hit)
                out_add(&c->out, s + i, j - i);
            i = j;
        } else if (isdigit((unsigned char)s[i])) {
            size_t j = i;
            while (j < n && (isalnum((unsigned char)s[j]) || s[j] == '_' || s[j] == '.'))
                j++;
            out_add(&c->out, s + i, j - i);
            i = j;
        } else
            out_add(&c->out, s + i++, 1);
    }
}

static int cpp_file(struct cpp *c, const char *path, const char *shown)
{
    char *text = slurp(path), *line, *next;
    int no = 0;
    char mark[1200];

    if (!text)
        return -1;
    if (++c->depth > 30) {
        c->errors++;
        return 0;
    }
    if (c->markers) {
        snprintf(mark, sizeof(mark), "# 1 \"%s\"%s\n", shown, c->depth > 1 ? " 1" : "");
        out_str(&c->out, mark);
    }
    for (line = text; *line; line = next) {
        size_t n = strcspn(line, "\n"), k = 0;
        next = line + n + (line[n] == '\n');
        no++;
        while (k < n && (line[k] == ' ' || line[k] == '\t'))
            k++;
        if (k < n && line[k] == '#') {
            char d[600], name[512], inc[1100];
            snprintf(d, sizeof(d), "%.*s", (int)(n - k - 1), line + k + 1);
            if (sscanf(d, " include <%511[^>]>", name) == 1 ||
                sscanf(d, " include \"%511[^\"]\"", name) == 1) {
                int i, ok = 0;
                for (i = 0; i <= c->n_dirs && !ok; i++) {
                    if (i < c->n_dirs)
                        snprintf(inc, sizeof(inc), "%s/%s", c->dirs[i], name);
                    else
                        snprintf(inc, sizeof(inc), "%s/include/%s", P.scratch, name);
                    if (access(inc, R_OK) == 0) {
                        cpp_file(c, inc, inc);
                        ok = 1;
                    }
                }
                if (!ok) {
                    fprintf(stderr, "%s:%d: fatal error: %s: No such file\n", shown, no, name);
                    c->errors++;
                    free(text);
                    c->depth--;
                    return 0;
                }
                if (c->markers) {
                    snprintf(mark, sizeof(mark), "# %d \"%s\" 2\n", no + 1, shown);
                    out_str(&c->out, mark);
                }
            } else if (sscanf(d, " define %63s", name) == 1 && c->n_m < 128) {
                char *b = strstr(d, name) + strlen(name);
                while (*b == ' ')
                    b++;
                snprintf(c->m[c->n_m].name, 64, "%.63s", name);
                snprintf(c->m[c->n_m].body, 256, "%.255s", b);
                c->n_m++;
                if (c->markers)
                    out_str(&c->out, "\n");
            } else if (strstr(d, "error")) {
                fprintf(stderr, "%s:%d: error: #%s\n", shown, no, d);
                c->errors++;
                if (c->markers)
                    out_str(&c->out, "\n");
            } else if (c->markers)
                out_str(&c->out, "\n");
        } else {
            /* -P drops empty lines */
            if (k < n || c->markers) {
                cpp_expand(c, line, n, 0);
                out_str(&c->out, "\n");
            }
        }
    }
    free(text);
    c->depth--;
    return 0;
}

/* Interpret a command line for the preprocessor.  Returns a wait status. */
static int run_stub(const char *cmd, struct out *o, char *outfile)
{
    char *copy = strdup(cmd), *p = copy, *input = NULL;
    struct cpp *c = calloc(1, sizeof(*c));
    int redirect = 0, want_dir = 0, status = 0;

    c->markers = 1;
    *outfile = 0;
    while (*p) {
        char *tok, q = 0;
        while (*p == ' ')
            p++;
        if (!*p)
            break;
        if (*p == '"' || *p == '\'')
            q = *p++;
        tok = p;
        p += q ? strcspn(p, q == '"' ? "\"" : "'") : strcspn(p, " ");
        if (*p)
            *p++ = 0;
        if (redirect) {
            snprintf(outfile, 1024, "%s", tok);
            redirect = 0;
        } else if (want_dir) {
            if (c->n_dirs < 16)
                snprintf(c->dirs[c->n_dirs++], 512, "%s", tok);
            want_dir = 0;
        } else if (!strcmp(tok, ">"))
            redirect = 1;
        else if (!strcmp(tok, "-I"))
            want_dir = 1;
        else if (!strcmp(tok, "-P"))
            c->markers = 0;
        else if (!strcmp(tok, "-x"))
            p += strcspn(p, " ");
        else if (*tok == '-' || !strcmp(tok, "gcc"))
            ;
        else
            input = tok;
    }
    out_str(&c->out, "");
    if (!input || cpp_file(c, input, input) == -1) {
        fprintf(stderr, "gcc: fatal error: %s: no such file\n", input ? input : "(null)");
        c->errors++;
    }
    if (c->errors)
        status = 1 << 8;
    *o = c->out;
    free(c);
    free(copy);
    return status;
}

int __wrap_system(const char *cmd)
{
    struct fault *f = fault_at("system");
    struct out o = { 0 };
    char outfile[1024], path[1024];
    int status, fd;

    ev("system %s", cmd);
    if (IS(f, "err")) {
        errno = f->a;
        return -1;
    }
    if (IS(f, "ret"))
        return f->a;
    if (P.cpp_real) {
        struct out r = { 0 };
        const char *s = cmd, *t;
        while ((t = strstr(s, " /tmp/"))) {
            out_add(&r, s, t + 1 - s);
            out_str(&r, P.scratch);
            s = t + 1;
        }
        out_str(&r, s);
        status = system(r.p);
        return status;
    }
    status = run_stub(cmd, &o, outfile);
    if (IS(f, "trunc")) {       /* the disk is full, or cpp was killed */
        if ((size_t)f->a < o.n)
            o.n = f->a;
        status = f->b;
    }
    if (*outfile) {
        fd = open(xlate(outfile, path), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        if (fd < 0)
            return 1 << 8;
        if (write(fd, o.p, o.n) != (ssize_t)o.n)
            status = 1 << 8;
        close(fd);
    }
    free(o.p);
    return status;
}

static struct { FILE *f; int status; } pfiles[32];

FILE *__wrap_popen(const char *cmd, const char *mode)
{
    struct fault *f = fault_at("popen");
    struct stream *s;
    struct out o = { 0 };
    char outfile[1024];
    int i;
    FILE *ret;

    ev("popen %s", cmd);
    if (IS(f, "err")) {
        errno = f->a;
        return NULL;
    }
    if (P.cpp_real)
        return popen(cmd, mode);
    s = calloc(1, sizeof(*s));
    s->fd = -1;
    s->status = run_stub(cmd, &o, outfile);
    s->data = o.p;
    s->len = o.n;
    if (IS(f, "trunc")) {
        if ((size_t)f->a < s->len)
            s->len = f->a;
        s->status = f->b;
    }
    if (IS(f, "eio")) {
        s->has_eio = 1;
        s->eio_at = f->a;
    }
    ret = fopencookie(s, "r", (cookie_io_functions_t){
            .read = stream_read, .close = stream_close });
    for (i = 0; i < 32; i++)
        if (!pfiles[i].f) {
            pfiles[i].f = ret;
            pfiles[i].status = s->status;
            break;
        }
    return ret;
}

int __wrap_pclose(FILE *fp)
{
    int i;

    for (i = 0; i < 32; i++)
        if (pfiles[i].f == fp) {
            struct fault *f = fault_at("pclose");
            pfiles[i].f = NULL;
            fclose(fp);
            if (IS(f, "err")) {
                errno = f->a;
                return -1;
            }
            if (IS(f, "ret"))
                return f->a;
            return pfiles[i].status;
        }
    return pclose(fp);
}

/* ------------------------------------------------- processes and linking */

int __wrap_pipe(int *fds)
{
    struct fault *f = fault_at("pipe");
    int r;

    if (f) {
        errno = f->a;
        return -1;
    }
    r = pipe(fds);
    if (!r)
        fd_kind[fds[0]] = fd_kind[fds[1]] = 'p';
    return r;
}

int __wrap_pipe2(int *fds, int fl)
{
    int r = __wrap_pipe(fds);
    (void)fl;
    return r;
}

static pid_t last_child;

static void merge_child(void)
{
    uint32_t i, start = 0;

    if (!child_region || !last_child || in_child)
        return;
    last_child = 0;
    for (i = 0; i < child_region->loglen; i++)
        if (child_region->log[i] == '\n') {
            ev("child: %.*s", (int)(i - start), child_region->log + start);
            start = i + 1;
        }
    S->heap_errors += child_region->heap_errors;
    S->chunks += child_region->chunks;
    child_region->loglen = 0;
    child_region->chunks = 0;
    child_region->heap_errors = 0;
}

pid_t __wrap_fork(void)
{
    struct fault *f = fault_at("fork");
    pid_t r;

    if (f) {
        errno = f->a;
        return -1;
    }
    r = fork();
    if (r == 0) {
        struct region *c = child_region;
        uint64_t pts = S->gc_points;
        in_child = 1;
        if (c) {
            memset(c, 0, offsetof(struct region, log));
            c->live = S->live;
            c->gc_points = pts;
            S = c;
        }
        f = fault_at("childstart");
        if (IS(f, "die"))
            raise(f->a);
        if (IS(f, "exit"))
            _exit(f->a);
    } else {
        ev("fork");
        last_child = r;
    }
    return r;
}

pid_t __wrap_vfork(void) { return __wrap_fork(); }

pid_t __wrap_waitpid(pid_t pid, int *st, int opt)
{
    struct fault *f = fault_at("waitpid");
    pid_t r;

    if (IS(f, "err")) {
        errno = f->a;
        return -1;
    }
    r = waitpid(pid, st, opt);
    if (r > 0) {
        merge_child();
        ev("reaped");
    }
    return r;
}

pid_t __wrap_wait(int *st) { return __wrap_waitpid(-1, st, 0); }

void *__wrap_dlsym(void *h, const char *name)
{
    struct fault *f = fault_at("dlsym");
    ev("dlsym %s", name);
    if (f)
        return NULL;
    return dlsym(h, name);
}

void *__wrap_dlopen(const char *name, int fl)
{
    struct fault *f = fault_at("dlopen");
    ev("dlopen %s", name ? name : "(self)");
    if (f)
        return NULL;
    return dlopen(name, fl);
}

/* -------------------------------------------------------------- terminal */

struct key_item { int eof; unsigned char c; };
static unsigned char *keys;             /* 0x04 alone ends an input stream */
static size_t n_keys, i_key;
static int in_readline, after_tab;
static rl_completion_func_t *real_completion;

static void esc(const char *s, char *out, size_t max)
{
    size_t n = 0;
    for (; *s && n + 5 < max; s++)
        if (*s < 32 || *s > 126 || *s == '\\')
            n += snprintf(out + n, max - n, "\\x%02x", (unsigned char)*s);
        else
            out[n++] = *s;
    out[n] = 0;
}

static char **log_completion(const char *text, int start, int end)
{
    char **m = real_completion(text, start, end);
    char buf[1024];
    int i;

    if (in_child)
        return m;
    esc(text, buf, sizeof(buf));
    ev("complete [%s]", buf);
    for (i = 0; m && m[i]; i++) {
        esc(m[i], buf, sizeof(buf));
        ev("candidate [%s]", buf);
    }
    return m;
}

static int count_dir(const char *path)
{
    DIR *d = opendir(path);
    int n = 0;

    if (!d)
        return -1;
    while (readdir(d))
        n++;
    closedir(d);
    return n - 2;
}

static void census(const char *what)
{
    char path[600];
    siginfo_t si;
    int kids, tmp, fds;

    snprintf(path, sizeof(path), "%s/tmp", P.scratch);
    tmp = count_dir(path);
    fds = count_dir("/proc/self/fd") - 1;
    kids = waitid(P_ALL, 0, &si, WEXITED | WNOWAIT) == 0;
    ev("census %s fds=%d tmp=%d kids=%d live=%lu", what, fds, tmp, kids,
       (unsigned long)S->live);
}

static int on_prompt(void)
{
    if (rl_attempted_completion_function != log_completion &&
        rl_attempted_completion_function) {
        real_completion = rl_attempted_completion_function;
        rl_attempted_completion_function = log_completion;
    }
    fflush(rl_outstream);
    census("prompt");
    ev("prompt %zu", i_key);
    return 0;
}

static int sim_getc(FILE *f)
{
    char buf[2048];
    (void)f;

    if (after_tab) {
        esc(rl_line_buffer, buf, sizeof(buf));
        ev("line-after-tab [%s]", buf);
        after_tab = 0;
    }
    if (i_key >= n_keys)
        return EOF;
    if (keys[i_key] == 4) {
        i_key++;
        ev("eof");
        return EOF;
    }
    if (keys[i_key] == '\t')
        after_tab = 1;
    if (keys[i_key] == '\n') {
        esc(rl_line_buffer, buf, sizeof(buf));
        ev("line [%s]", buf);
    }
    return keys[i_key++];
}

static void on_display(char **m, int n, int max)
{
    char buf[1024];
    int i;
    (void)max;
    for (i = 1; i <= n; i++) {
        esc(m[i], buf, sizeof(buf));
        ev("shown [%s]", buf);
    }
    rl_forced_update_display();
}

/* --------------------------------- native code that the programs call into */

#define NSLOT 16
static struct { void *fn; char kind; } slots[NSLOT];
struct sevent { int slot; long a, b; };
static struct sevent *events;
static size_t n_events, i_event;
static int loop_depth;

EXPORT int sim_on(int slot, void *fn) { slots[slot & 15].fn = fn; slots[slot & 15].kind = 'i'; return 0; }
EXPORT int sim_on_v(int slot, void *fn) { slots[slot & 15].fn = fn; slots[slot & 15].kind = 'v'; return 0; }
EXPORT int sim_on_l(int slot, void *fn) { slots[slot & 15].fn = fn; slots[slot & 15].kind = 'l'; return 0; }
EXPORT int sim_on_c(int slot, void *fn) { slots[slot & 15].fn = fn; slots[slot & 15].kind = 'c'; return 0; }
EXPORT int sim_on_s(int slot, void *fn) { slots[slot & 15].fn = fn; slots[slot & 15].kind = 's'; return 0; }
EXPORT int sim_on_d(int slot, void *fn) { slots[slot & 15].fn = fn; slots[slot & 15].kind = 'd'; return 0; }
EXPORT int sim_on_p(int slot, void *fn) { slots[slot & 15].fn = fn; slots[slot & 15].kind = 'p'; return 0; }

/* Dispatch the next `n' events of the plan; returns a checksum of the results
 * of the handlers.  Handlers can call this, too. */
EXPORT int sim_run(int n)
{
    int sum = 0;
    static const char *strs[] = { "zero", "one", "two", "three", "four" };

    loop_depth++;
    while (n-- > 0 && i_event < n_events) {
        struct sevent *e = &events[i_event++];
        long r = 0;
        void *fn = slots[e->slot & 15].fn;
        if (!fn)
            continue;
        switch (slots[e->slot & 15].kind) {
        case 'i': r = ((int (*)(int, int))fn)(e->a, e->b); break;
        case 'v': ((void (*)(int))fn)(e->a); break;
        case 'l': r = ((long (*)(long, long))fn)(e->a, e->b); break;
        case 'c': r = ((char (*)(char, char))fn)((char)e->a, (char)e->b); break;
        case 's': r = ((short (*)(short, short))fn)((short)e->a, (short)e->b); break;
        case 'd': r = (long)(((double (*)(double, double))fn)(e->a / 4.0, e->b / 4.0) * 4.0); break;
        case 'p': r = ((int (*)(char *, int))fn)((char *)strs[((e->a % 5) + 5) % 5], e->b); break;
        }
        ev("event %d(%ld,%ld) = %ld depth %d", e->slot, e->a, e->b, r, loop_depth);
        sum = (sum * 7 + (int)(r % 1000)) % 100000;
    }
    loop_depth--;
    return sum;
}

EXPORT int sim_pending(void) { return n_events - i_event; }

/* Call a function through a pointer immediately. */
EXPORT int sim_call(int (*fn)(int, int), int a, int b) { return fn(a, b); }

/* Call a function that was handed over, with each argument of a list. */
EXPORT int sim_each(int *v, int n, int (*fn)(int, int))
{
    int i, r = 0;
    for (i = 0; i < n; i++)
        r = (r + fn(v[i], i)) % 100000;
    return r;
}

EXPORT int sim_mark(int k)
{
    ev("mark %d live=%lu peak=%lu", k, (unsigned long)S->live, (unsigned long)S->peak);
    S->peak = S->live;
    return k;
}

/* A native function that keeps the pointers that it is given. */
static char *kept[64];
EXPORT int sim_keep(int i, char *s) { kept[i & 63] = s; return i; }
EXPORT int sim_show(int i) { printf("kept %d=%s\n", i, kept[i & 63]); return i; }

/* ------------------------------------------------------------------ setup */

static void on_exit_final(void)
{
    if (in_child)
        return;
    S->exit_seen = 1;
    if (P.active) {
        int i;
        census("exit");
        merge_child();
        for (i = 0; i < n_counts; i++)
            ev("site %s %ld", counts[i].site, counts[i].n);
        heap_final_check();
        ev("exit");
    }
}

static void unhex(const char *h)
{
    size_t n = strlen(h) / 2, i;
    keys = realloc(keys, n_keys + n + 1);
    for (i = 0; i < n; i++) {
        unsigned v;
        sscanf(h + 2 * i, "%2x", &v);
        keys[n_keys++] = v;
    }
}

static void __attribute__((constructor)) sim_init(void)
{
    const char *plan = getenv("BICSIM_PLAN");
    FILE *f;
    char *line = NULL;
    size_t cap = 0;
    ssize_t len;
    char logname[600] = "";
    uint64_t heap_rng = 0;
    int place = P.place, fill = P.fill, poison = P.poison;

    if (!plan)
        return;
    f = fopen(plan, "r");
    if (!f)
        _exit(98);
    while ((len = getline(&line, &cap, f)) > 0) {
        char a[64], b[64];
        long x, y, z;
        int used;
        if (line[len - 1] == '\n')
            line[--len] = 0;
        if (sscanf(line, "scratch %511s", P.scratch) == 1)
            ;
        else if (sscanf(line, "log %599s", logname) == 1)
            ;
        else if (sscanf(line, "gc %31s%n", a, &used) == 1) {
            char *p = line + used;
            if (!strcmp(a, "natural")) P.gc = GC_NATURAL;
            if (!strcmp(a, "never")) P.gc = GC_NEVER;
            if (!strcmp(a, "every")) P.gc = GC_EVERY;
            if (!strcmp(a, "bern") && sscanf(p, "%ld %ld", &x, &y) == 2) {
                P.gc = GC_BERN;
                P.gc_rng = x;
                P.gc_p = y;
            }
            if (!strcmp(a, "period") && sscanf(p, "%ld %ld", &x, &y) == 2) {
                P.gc = GC_PERIOD;
                P.gc_k = x;
                P.gc_off = y % x;
            }
            if (!strcmp(a, "list")) {
                char *q;
                P.gc = GC_LIST;
                P.gc_list = malloc(sizeof(*P.gc_list) * (strlen(p) + 1));
                while ((x = strtol(p, &q, 10)), q != p) {
                    P.gc_list[P.gc_n++] = x;
                    p = q;
                }
            }
        } else if (sscanf(line, "gclog %ld", &x) == 1)
            P.gc_log = x;
        else if (sscanf(line, "heap %31s %31s %ld %ld", a, b, &x, &y) == 4) {
            place = !strcmp(a, "bump") ? PL_BUMP : !strcmp(a, "fifo") ? PL_FIFO :
                !strcmp(a, "rand") ? PL_RAND : PL_LIFO;
            fill = !strcmp(b, "stale") ? -1 : !strcmp(b, "rand") ? -2 : (int)strtol(b, 0, 16);
            poison = x;
            heap_rng = y;
        } else if (sscanf(line, "steps %ld", &x) == 1)
            P.steps = x;
        else if (sscanf(line, "chunk %ld", &x) == 1) {
            P.chunk = 1;
            P.chunk_rng = x;
        } else if (sscanf(line, "cpp %31s", a) == 1)
            P.cpp_real = !strcmp(a, "real");
        else if (!strncmp(line, "in ", 3))
            unhex(line + 3);
        else if (sscanf(line, "ev %ld %ld %ld", &x, &y, &z) == 3) {
            events = realloc(events, sizeof(*events) * (n_events + 1));
            events[n_events++] = (struct sevent){ x, y, z };
        } else if (!strncmp(line, "fault ", 6) && n_faults < 256) {
            struct fault *q = &faults[n_faults];
            q->a = q->b = 0;
            if (sscanf(line, "fault %23s %ld %23s %ld %ld", q->site, &q->nth,
                       q->action, &q->a, &q->b) >= 3)
                n_faults++;
        }
    }
    free(line);
    fclose(f);
    if (*logname) {
        int fd = open(logname, O_RDWR | O_CREAT, 0600);
        char *m;
        if (fd < 0 || ftruncate(fd, 2 * sizeof(struct region)))
            _exit(98);
        m = mmap(NULL, 2 * sizeof(struct region), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        close(fd);
        if (m == MAP_FAILED)
            _exit(98);
        parent_region = (struct region *)m;
        child_region = parent_region + 1;
        memset(parent_region, 0, offsetof(struct region, log));
        memset(child_region, 0, offsetof(struct region, log));
        memcpy(parent_region->magic, "BICSIM1", 8);
        parent_region->live = S->live;
        parent_region->allocs = S->allocs;
        S = parent_region;
    }
    rl_instream = fopen("/dev/null", "r");
    rl_outstream = fopen("/dev/null", "w");
    rl_getc_function = sim_getc;
    rl_startup_hook = on_prompt;
    rl_completion_display_matches_hook = on_display;
    P.place = place;
    P.fill = fill;
    /* Only what is freed from now on is poisoned. */
    {
        int k;
        for (k = 0; k < NCLS; k++) {
            free_head[k] = free_tail[k] = NULL;
            free_count[k] = 0;
        }
        char *q = ARENA_BASE;
        while (q < arena_ptr) {
            struct hdr *h = (struct hdr *)q;
            if (h->state == H_FREE && poison >= 0)
                memset(h + 1, poison, h->size);
            q += HDR + cls_cap(h->cls);
        }
    }
    P.poison = poison;
    P.heap_rng = heap_rng;
    P.active = 1;
    (void)in_readline;
    atexit(on_exit_final);
    ev("start");
    census("start");
}
