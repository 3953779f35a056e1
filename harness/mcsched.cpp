// Never compiled with the thread sanitizer: the hand-offs are invisible to it, so two accesses that are ordered only by this
#include <unistd.h>
// scheduler still count as a race.
#include "mcsched.h"
#include <dlfcn.h>
#include <pthread.h>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <stdio.h>
#include <stdlib.h>
#include <map>
#include <string.h>

namespace {
typedef int (*lock_t)(pthread_mutex_t*);
typedef int (*guard_t)(void*);
typedef void (*guardv_t)(void*);
lock_t real_lock, real_unlock, real_trylock;
guard_t real_acquire;
guardv_t real_release, real_abort;

void init_real()
{
    if (real_lock) {
        return;
    }
    real_lock = (lock_t) dlsym(RTLD_NEXT, "pthread_mutex_lock");
    real_unlock = (lock_t) dlsym(RTLD_NEXT, "pthread_mutex_unlock");
    real_trylock = (lock_t) dlsym(RTLD_NEXT, "pthread_mutex_trylock");
    real_acquire = (guard_t) dlsym(RTLD_NEXT, "__cxa_guard_acquire");
    real_release = (guardv_t) dlsym(RTLD_NEXT, "__cxa_guard_release");
    real_abort = (guardv_t) dlsym(RTLD_NEXT, "__cxa_guard_abort");
}

const int MAXT = 8;
struct Th {
    volatile int sem = 0;
    bool done = false, started = false;
    const void* blocked = nullptr;   // the object waited for
} T[MAXT];
int nth = 0;
volatile int cur = -1;
volatile int finished = 0;
bool active = false;
__thread int me = -1;
__thread bool inside = false;

struct Own { const void* obj; int owner; int depth; };
Own own[256];
int nown = 0;
std::vector<int> dec;
size_t at = 0;
McResult* res;
volatile int mainsem = 0;

long raw_futex(volatile int* a, int op, int v)
{
    long r;
    register long r10 __asm__("r10") = 0;
    __asm__ volatile("syscall" : "=a"(r) : "a"((long) SYS_futex), "D"(a), "S"((long) op), "d"((long) v), "r"(r10) : "rcx", "r11", "memory");
    return r;
}

void wait_sem(volatile int* s)
{
    while (true) {
        int v = *s;
        if (v > 0) {
            *s = v - 1;
            return;
        }
        raw_futex(s, FUTEX_WAIT, v);
    }
}

void post(volatile int* s)
{
    __atomic_add_fetch((int*) s, 1, __ATOMIC_SEQ_CST);
    raw_futex(s, FUTEX_WAKE, 1);
}

Own* find(const void* o)
{
    for (int i = 0; i < nown; i++) {
        if (own[i].obj == o) {
            return &own[i];
        }
    }
    return nullptr;
}

unsigned enabled()
{
    unsigned m = 0;
    for (int i = 0; i < nth; i++) {
        if (T[i].done) {
            continue;
        }
        if (T[i].blocked) {
            Own* w = find(T[i].blocked);
            if (w && w->owner != i) {
                continue;
            }
        }
        m |= 1u << i;
    }
    return m;
}

// choose the next thread; called by the running thread (or main at the start)
void point(const void* obj)
{
    unsigned en = enabled();
    if (!en) {
        bool all = true;
        for (int i = 0; i < nth; i++) {
            all &= T[i].done;
        }
        res->status = all ? 0 : 1;
        post(&mainsem);
        if (!all) {
            volatile int never = 0;
            wait_sem(&never);
        }
        return;
    }
    int next;
    bool self = me >= 0 && !T[me].done && (en >> me & 1);
    if ((en & (en - 1)) == 0) {
        next = __builtin_ctz(en);                 // no choice
    } else {
        if (at < dec.size()) {
            next = dec[at];
            if (!(en >> next & 1)) {
                fprintf(stderr, "MC-DIVERGED\n");
                _exit(97);
            }
        } else {
            next = self ? me : __builtin_ctz(en);
        }
        at++;
        res->points.push_back({next, en, self, obj});
    }
    int was = me;
    if (next != was) {
        cur = next;
        post(&T[next].sem);
        if (was >= 0 && !T[was].done) {
            wait_sem(&T[was].sem);
        }
    }
}

struct Arg { int id; const std::function<void()>* f; };

void* entry(void* a)
{
    Arg* g = (Arg*) a;
    me = g->id;
    wait_sem(&T[me].sem);
    (*g->f)();
    inside = true;
    T[me].done = true;
    int m = me;
    (void) m;
    point(nullptr);
    me = -1;
    inside = false;
    return nullptr;
}

// wait until obj is free for this thread, offering a decision first
void before(const void* obj)
{
    inside = true;
    T[me].blocked = obj;
    point(obj);
    T[me].blocked = nullptr;
    inside = false;
}

void take(const void* obj)
{
    Own* w = find(obj);
    if (w) {
        w->depth++;
        return;
    }
    if (nown == 256) {
        fprintf(stderr, "MC-OVERFLOW\n");
        _exit(98);
    }
    own[nown++] = {obj, me, 1};
}

void drop(const void* obj)
{
    Own* w = find(obj);
    if (w && --w->depth == 0) {
        *w = own[--nown];
    }
}
} // namespace

extern "C" {

int pthread_mutex_lock(pthread_mutex_t* m)
{
    init_real();
    if (!active || me < 0 || inside) {
        return real_lock(m);
    }
    Own* w = find(m);
    if (w && w->owner == me && (m->__data.__kind & 3) != PTHREAD_MUTEX_RECURSIVE_NP) {
        fprintf(stderr, "MC-SELFLOCK\n");
        _exit(95);
    }
    before(m);
    take(m);
    return real_lock(m);
}

int pthread_mutex_trylock(pthread_mutex_t* m)
{
    init_real();
    if (!active || me < 0 || inside) {
        return real_trylock(m);
    }
    inside = true;
    point(m);
    inside = false;
    int r = real_trylock(m);
    if (!r) {
        take(m);
    }
    return r;
}

int pthread_mutex_unlock(pthread_mutex_t* m)
{
    init_real();
    int r = real_unlock(m);
    if (active && me >= 0 && !inside) {
        drop(m);
    }
    return r;
}

int __cxa_guard_acquire(void* g)
{
    init_real();
    if (!active || me < 0 || inside) {
        return real_acquire(g);
    }
    before(g);
    int r = real_acquire(g);
    if (r) {
        take(g);
    }
    return r;
}

void __cxa_guard_release(void* g)
{
    init_real();
    real_release(g);
    if (active && me >= 0 && !inside) {
        drop(g);
    }
}

void __cxa_guard_abort(void* g)
{
    init_real();
    real_abort(g);
    if (active && me >= 0 && !inside) {
        drop(g);
    }
}
}

void mc_yield()
{
    if (active && me >= 0) {
        inside = true;
        point(nullptr);
        inside = false;
    }
}

McResult mc_run(const std::vector<std::function<void()>>& bodies, const std::vector<int>& decisions)
{
    init_real();
    McResult r;
    r.points.reserve(1 << 16);
    res = &r;
    dec = decisions;
    at = 0;
    nth = bodies.size();
    std::vector<pthread_t> tid(nth);
    std::vector<Arg> args(nth);
    for (int i = 0; i < nth; i++) {
        T[i] = Th();
        args[i] = {i, &bodies[i]};
        pthread_create(&tid[i], nullptr, entry, &args[i]);
    }
    active = true;
    me = -1;
    point(nullptr);
    wait_sem(&mainsem);
    if (r.status == 0) {
        for (int i = 0; i < nth; i++) {
            pthread_join(tid[i], nullptr);
        }
        active = false;
    }
    return r;
}
