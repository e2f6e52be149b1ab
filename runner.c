/* Native replayer: runs one harness of the compiled cdylib (the very object the IR
 * was taken from) on concrete inputs.
 *   runner lib.so harness v1,v2,...  [seconds]
 * exit: 0 finished, all asserts held     10 assertion failed      11 panic not permitted
 *       12 memory fault / bad dealloc    13 did not terminate     20 permitted panic
 *       77 assumption not met            78 ran out of inputs                              */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include <pthread.h>
typedef unsigned __int128 u128;
static u128 *in;
static int nin, pos, panic_ok;
static unsigned long live;

static u128 next(void) {
    if (pos >= nin) {
        fprintf(stderr, "runner: out of inputs\n");
        _exit(78);
    }
    return in[pos++];
}
_Bool vt_bool(void) { return next() & 1; }
uint8_t vt_u8(void) { return next(); }
uint16_t vt_u16(void) { return next(); }
uint32_t vt_u32(void) { return next(); }
uint64_t vt_u64(void) { return next(); }
u128 vt_u128(void) { return next(); }
uint64_t vt_pick(uint64_t n) {
    uint64_t v = next();
    if (v >= n) _exit(77);
    return v;
}
u128 vt_hide(u128 x) { return x; }
uint64_t vt_conc(uint64_t n) { return n; }
void vt_assume(_Bool c) {
    if (!c) _exit(77);
}
void vt_assert(_Bool c, uint32_t line) {
    if (!c) {
        fprintf(stderr, "ASSERTION at harness line %u does not hold\n", line);
        _exit(10);
    }
}
void vt_cover(uint32_t l) {}
void vt_cover_if(_Bool c, uint32_t l) {}
void vt_panic_ok(_Bool c) { panic_ok = c; }
void vt_merge(uint32_t m) {}
void vt_out(uint64_t x) { printf("OUT %lu\n", (unsigned long)x); }
uint64_t vt_live_heap(void) { return live; }
void vt_switches(uint32_t n) {}
void vt_yield(void) {}

/* Guarded heap: each block ends at an inaccessible page; freed blocks become inaccessible. */
struct blk { char *map; size_t len; void *p; size_t n, a; int freed; struct blk *next; };
#define HB 4096
static struct blk *tab[HB];
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
void *vt_alloc(size_t n, size_t a) {
    if (n > (1u << 24)) return 0;
    size_t pg = 4096, len = (n + a + pg - 1) / pg * pg + pg;
    char *m = mmap(0, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) return 0;
    mprotect(m + len - pg, pg, PROT_NONE);
    uintptr_t p = ((uintptr_t)m + len - pg - n) & ~(uintptr_t)(a - 1);
    memset((void *)p, 0xA5, n);
    struct blk *b = malloc(sizeof *b);
    *b = (struct blk){m, len, (void *)p, n, a, 0, 0};
    pthread_mutex_lock(&mu);
    unsigned h = (p >> 4) % HB;
    b->next = tab[h];
    tab[h] = b;
    live++;
    pthread_mutex_unlock(&mu);
    return (void *)p;
}
void vt_dealloc(void *p, size_t n, size_t a) {
    pthread_mutex_lock(&mu);
    struct blk *b = tab[((uintptr_t)p >> 4) % HB];
    while (b && b->p != p) b = b->next;
    if (!b || b->freed || b->n != n || b->a != a) {
        fprintf(stderr, "MEMORY: invalid deallocation (%s)\n", !b ? "unknown block" : b->freed ? "double free" : "wrong layout");
        _exit(12);
    }
    b->freed = 1;
    live--;
    mprotect(b->map, b->len, PROT_NONE);
    pthread_mutex_unlock(&mu);
}
static pthread_t th[16];
static int nth;
struct sp { void (*f)(void *); void *a; };
static void *tramp(void *x) {
    struct sp *s = x;
    s->f(s->a);
    return 0;
}
void vt_spawn(void (*f)(void *), void *a) {
    struct sp *s = malloc(sizeof *s);
    s->f = f;
    s->a = a;
    pthread_create(&th[nth++], 0, tramp, s);
}
void vt_join(void) {
    for (int i = 0; i < nth; i++) pthread_join(th[i], 0);
    nth = 0;
}
static void on(int s) {
    if (s == SIGALRM) _exit(13);
    if (s == SIGABRT) _exit(panic_ok ? 20 : 11);
    if (s == SIGILL || s == SIGTRAP) _exit(14);
    const char m[] = "MEMORY: fault\n";
    (void)!write(2, m, sizeof m - 1);
    _exit(12);
}
int main(int c, char **v) {
    if (c < 4) return 2;
    setenv("RUST_BACKTRACE", "0", 1);
    in = calloc(strlen(v[3]) + 1, sizeof *in);
    for (char *t = strtok(v[3], ","); t; t = strtok(0, ",")) {
        u128 x = 0;
        for (; *t; t++) x = x * 10 + (*t - '0');
        in[nin++] = x;
    }
    stack_t ss = {.ss_sp = malloc(1 << 16), .ss_size = 1 << 16};
    sigaltstack(&ss, 0);
    struct sigaction sa = {.sa_handler = on, .sa_flags = SA_ONSTACK | SA_NODEFER};
    int sg[] = {SIGALRM, SIGABRT, SIGSEGV, SIGBUS, SIGILL, SIGTRAP, SIGFPE};
    for (unsigned i = 0; i < sizeof sg / sizeof *sg; i++) sigaction(sg[i], &sa, 0);
    void *h = dlopen(v[1], RTLD_NOW);
    if (!h) {
        fprintf(stderr, "%s\n", dlerror());
        return 2;
    }
    void (*f)(void) = (void (*)(void))dlsym(h, v[2]);
    if (!f) {
        fprintf(stderr, "no harness %s\n", v[2]);
        return 2;
    }
    alarm(c > 4 ? atoi(v[4]) : 20);
    f();
    fflush(stdout);
    _exit(0);
}
