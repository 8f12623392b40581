#include "vsched.h"

#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>

// ------------------------------------------------------------------ raw system calls
static inline long raw_syscall(long n, long a, long b, long c, long d, long e, long f)
{
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return ret;
}

static void futex_wait_raw(std::atomic<int>* p, int v)
{
    raw_syscall(SYS_futex, (long)p, FUTEX_WAIT_PRIVATE, v, 0, 0, 0);
}
static void futex_wake_raw(std::atomic<int>* p)
{
    raw_syscall(SYS_futex, (long)p, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

// ------------------------------------------------------------------ bump allocator with quarantine
static char* const  HEAP_BASE = (char*)0x100000000000ull;
static const size_t HEAP_SIZE = 256u << 20;
static char*        g_heap = nullptr;
static size_t       g_heap_pos = 0;
struct Shadow { uint32_t w, r; };
static Shadow*      g_sh_word = nullptr;    // per 4 bytes
static Shadow*      g_sh_byte = nullptr;    // per byte
static unsigned char* g_freed = nullptr;    // per 16 bytes

static void heap_init()
{
    if (g_heap) return;
    auto map = [](void* at, size_t n) {
        void* p = mmap(at, n, PROT_READ | PROT_WRITE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (at ? MAP_FIXED_NOREPLACE : 0), -1, 0);
        if (p == MAP_FAILED) { static const char m[] = "vsched: mmap failed\n"; (void)!write(2, m, sizeof m - 1); _exit(70); }
        return p;
    };
    g_heap = (char*)map(HEAP_BASE, HEAP_SIZE);
    g_sh_word = (Shadow*)map(nullptr, (HEAP_SIZE / 4) * sizeof(Shadow));
    g_sh_byte = (Shadow*)map(nullptr, HEAP_SIZE * sizeof(Shadow));
    g_freed = (unsigned char*)map(nullptr, HEAP_SIZE / 16);
}

static std::atomic<int> g_heap_lock{ 0 };
static void* heap_alloc(size_t n, size_t al)
{
    heap_init();
    while (g_heap_lock.exchange(1)) {}
    if (al < 16) al = 16;
    size_t pos = (g_heap_pos + 16 + al - 1) / al * al;      // 16 byte header before the block
    g_heap_pos = pos + ((n + 15) & ~size_t(15));
    g_heap_lock.store(0);
    if (HEAP_SIZE <= g_heap_pos) { static const char m[] = "vsched: heap exhausted\n"; (void)!write(2, m, sizeof m - 1); _exit(71); }
    *(size_t*)(g_heap + pos - 16) = n;
    *(size_t*)(g_heap + pos - 8) = 0xA110CA7EDull;
    return g_heap + pos;
}
static inline bool in_heap(const void* p)
{
    return g_heap && (const char*)p >= g_heap && (const char*)p < g_heap + HEAP_SIZE;
}
static void heap_free(void* p)
{
    if (!p || !in_heap(p)) return;
    size_t& tag = *(size_t*)((char*)p - 8);
    if (tag == 0xDEADull) { vs::fail("double_free"); return; }
    tag = 0xDEADull;
    size_t n = *(size_t*)((char*)p - 16);
    memset(p, 0xDD, n);
    size_t first = ((char*)p - g_heap) / 16, cnt = (n + 15) / 16;
    memset(g_freed + first, 1, cnt);
}
void* operator new(size_t n) { return heap_alloc(n, 16); }
void* operator new[](size_t n) { return heap_alloc(n, 16); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return heap_alloc(n, 16); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return heap_alloc(n, 16); }
void* operator new(size_t n, std::align_val_t a) { return heap_alloc(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return heap_alloc(n, (size_t)a); }
void operator delete(void* p) noexcept { heap_free(p); }
void operator delete[](void* p) noexcept { heap_free(p); }
void operator delete(void* p, size_t) noexcept { heap_free(p); }
void operator delete[](void* p, size_t) noexcept { heap_free(p); }
void operator delete(void* p, std::align_val_t) noexcept { heap_free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { heap_free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { heap_free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { heap_free(p); }

// ------------------------------------------------------------------ scheduler state
namespace
{
    const int MAXT = 48;
    enum State { FREE, RUNNABLE, W_MUTEX, W_COND, W_RD, W_WR, W_JOIN, W_FUTEX, W_ONCE, W_GATE, W_SLEEP, W_HOLD, W_SETTLE, FINISHED };
    typedef uint32_t VC[MAXT];

    struct Thread
    {
        int                 id;
        State               state;
        const void*         obj;        // what it waits for
        const void*         obj2;       // mutex to re-acquire after a condition wait
        int64_t             deadline;   // -1: none
        int                 result;     // result of a timed wait
        bool                detached;
        bool                joined;
        pthread_t           pt;
        std::atomic<int>    baton;
        void*               (*fn)(void*);
        void*               arg;
        void*               ret;
        uint32_t            prio;       // PCT
        uint32_t            streak;
        VC                  vc;
        char                name[16];
        uint32_t            futex_bits;
    };

    Thread      g_t[MAXT];
    int         g_nt = 0;
    bool        g_active = false;
    Thread*     g_cur = nullptr;
    __thread Thread* t_me = nullptr;
    __thread bool t_own = false;        // the scenario's own memory accesses
    __thread int t_in = 0;              // > 0 while inside the scheduler: no scheduling points

    int64_t     g_now = 0;
    const int64_t REAL_BASE = 1700000000ll * 1000000000ll;
    const int64_t MONO_BASE = 5000ll * 1000000000ll;
    const int64_t FAR_FUTURE = 2000000ll * 1000000;
    bool        g_gate[64];

    struct Obj                          // mutex / rwlock / once / atomic
    {
        const void* addr;
        int         owner;              // mutex owner or rw writer, -1 none
        int         count;              // recursion
        int         readers;
        uint64_t    reader_mask;
        int         once;               // 0 new 1 running 2 done
        VC          vc;                 // release clock (writers)
        VC          rvc;                // release clock (readers)
    };
    const size_t NOBJ = 1 << 13;
    Obj*        g_obj = nullptr;

    Obj* obj(const void* a)
    {
        size_t h = ((size_t)a * 0x9E3779B97F4A7C15ull) >> 51;
        for (size_t i = 0; i < NOBJ; ++i)
        {
            Obj* o = &g_obj[(h + i) & (NOBJ - 1)];
            if (o->addr == a) return o;
            if (!o->addr) { o->addr = a; o->owner = -1; return o; }
        }
        vs::fail("too_many_sync_objects");
        return nullptr;
    }

    // shared between parent and child
    struct Shared
    {
        size_t   len;
        uint32_t nev;
        uint32_t sync_points;
        uint32_t all_points;
        uint32_t mark;          // all_points at the last event of the scenario
        uint32_t overflow;
        uint32_t done;
        uint32_t extra[8];
        char     buf[1 << 20];
    };
    Shared*     g_sh = nullptr;

    // strategy
    enum Strat { S_RANDOM, S_PCT, S_DELAY };
    struct Plan
    {
        Strat    strat = S_RANDOM;
        uint64_t seed = 1;
        double   p_sync = 0.5;          // switch probability at synchronisation points
        double   p_mem = 0.0;           // at memory accesses
        bool     pct_all = false;       // change points over all points, not only synchronisation
        int      pct_d = 3;
        uint32_t pct_k = 300;           // estimated length
        double   p_tick = 0.0;          // spontaneous clock moves
        double   p_spur = 0.0;          // spurious wake-ups
        bool     fifo_signal = false;
        int      ndelay = 0;
        uint32_t delay[8];
        uint32_t limit = 400000;
    };
    Plan        g_plan;
    uint64_t    g_rng;
    uint32_t    g_change[16];
    uint32_t    g_lowprio = 1000;
    bool        g_fair = false;

    uint64_t rng()
    {
        g_rng ^= g_rng << 13; g_rng ^= g_rng >> 7; g_rng ^= g_rng << 17;
        return g_rng * 0x2545F4914F6CDD1Dull;
    }
    double rngf() { return double(rng() >> 11) / 9007199254740992.0; }

    [[noreturn]] void stop_child(int code)
    {
        g_sh->done = 1;
        raw_syscall(SYS_exit_group, code, 0, 0, 0, 0, 0);
        __builtin_unreachable();
    }

    void append(const char* s, size_t n)
    {
        if (sizeof(g_sh->buf) - 64 < g_sh->len + n + 2) { g_sh->overflow = 1; stop_child(9); }
        if (g_sh->nev) { g_sh->buf[g_sh->len++] = ','; g_sh->buf[g_sh->len++] = '\n'; }
        memcpy(g_sh->buf + g_sh->len, s, n);
        g_sh->len += n;
        ++g_sh->nev;
    }
}

void (*vs::on_quiesce)() = nullptr;

void vs::ev(const char* fmt, ...)
{
    ++t_in;
    char b[4096];
    va_list ap; va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if (n >= (int)sizeof b) n = sizeof b - 1;
    append(b, (size_t)n);
    g_sh->mark = g_sh->all_points;
    --t_in;
}

void vs::ev_again(const char* fmt, ...)
{
    ++t_in;
    char b[4096];
    va_list ap; va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if (n >= (int)sizeof b) n = sizeof b - 1;
    if (g_sh->len < (size_t)n || memcmp(g_sh->buf + g_sh->len - n, b, (size_t)n) != 0) append(b, (size_t)n);
    --t_in;
}

void vs::ev_raw(const std::string& s)
{
    ++t_in;
    append(s.data(), s.size());
    g_sh->mark = g_sh->all_points;
    --t_in;
}

void vs::fail(const char* what)
{
    if (!g_sh || !g_active) { fprintf(stderr, "vsched: %s\n", what); _exit(72); }
    char b[256];
    int n = snprintf(b, sizeof b, "{\"e\":\"fault\",\"what\":\"%s\",\"th\":\"%s\"}", what, t_me ? t_me->name : "?");
    append(b, (size_t)n);
    stop_child(0);
}

bool vs::freed(const void* p) { return in_heap(p) && g_freed[((const char*)p - g_heap) / 16]; }
int64_t vs::epoch_ns() { return REAL_BASE; }
uint64_t vs::rnd() { return rng(); }
int vs::tid() { return t_me ? t_me->id : -1; }
const char* vs::thread_name() { return t_me ? t_me->name : "?"; }
void vs::name_thread(const char* n) { if (t_me) snprintf(t_me->name, sizeof t_me->name, "%s", n); }
int64_t vs::now() { return g_now; }

// ------------------------------------------------------------------ vector clocks
static inline void vc_join(VC a, const VC b) { for (int i = 0; i < g_nt; ++i) if (a[i] < b[i]) a[i] = b[i]; }
static void acquire_from(const VC b) { if (t_me) vc_join(t_me->vc, b); }
static void release_to(VC a) { if (t_me) { vc_join(a, t_me->vc); ++t_me->vc[t_me->id]; } }

static std::unordered_map<uint64_t, std::vector<uint32_t>>* g_rshared = nullptr;

static void race(const void* addr, bool write, uint32_t other)
{
    (void)addr;
    char b[64];
    snprintf(b, sizeof b, "race_%s_with_%s", write ? "write" : "read", g_t[other >> 24].name);
    vs::fail("data_race");
}

static inline void shadow_access(Shadow& s, uint64_t key, bool write, const void* addr)
{
    Thread* me = t_me;
    const uint32_t id = (uint32_t)me->id;
    const uint32_t mine = (id << 24) | (me->vc[id] & 0xFFFFFF);
    if (s.w && (s.w >> 24) != id && me->vc[s.w >> 24] < (s.w & 0xFFFFFF)) race(addr, write, s.w);
    if (!write)
    {
        if (s.r == mine) return;
        if (s.r == 0 || (s.r != 0xFFFFFFFFu && ((s.r >> 24) == id || (s.r & 0xFFFFFF) <= me->vc[s.r >> 24]))) { s.r = mine; return; }
        auto& v = (*g_rshared)[key];
        if (v.empty()) v.resize(MAXT, 0);
        if (s.r != 0xFFFFFFFFu) v[s.r >> 24] = s.r & 0xFFFFFF;
        v[id] = me->vc[id] & 0xFFFFFF;
        s.r = 0xFFFFFFFFu;
    }
    else
    {
        if (s.r == 0xFFFFFFFFu)
        {
            auto& v = (*g_rshared)[key];
            for (int i = 0; i < g_nt; ++i) if ((uint32_t)i != id && v[i] && me->vc[i] < v[i]) race(addr, true, (uint32_t)i << 24);
            v.assign(MAXT, 0);
        }
        else if (s.r && (s.r >> 24) != id && me->vc[s.r >> 24] < (s.r & 0xFFFFFF)) race(addr, true, s.r);
        s.r = 0;
        s.w = mine;
    }
}

static void track(const void* p, size_t n, bool write)
{
    if (!in_heap(p)) return;
    size_t off = (size_t)((const char*)p - g_heap);
    if (g_freed[off / 16] || g_freed[(off + n - 1) / 16]) { vs::fail("use_after_free"); }
    if (n >= 4)
        for (size_t i = off / 4; i <= (off + n - 1) / 4; ++i) shadow_access(g_sh_word[i], i * 2, write, p);
    else
        for (size_t i = off; i < off + n; ++i) shadow_access(g_sh_byte[i], i * 2 + 1, write, p);
}

// ------------------------------------------------------------------ choosing the next thread
static bool enabled(Thread& t)
{
    switch (t.state)
    {
        case RUNNABLE: return true;
        case W_MUTEX: return obj(t.obj)->owner < 0;
        case W_RD: return obj(t.obj)->owner < 0;
        case W_WR: { Obj* o = obj(t.obj); return o->owner < 0 && o->readers == 0; }
        case W_COND: case W_FUTEX: case W_SLEEP: return t.deadline >= 0 && t.deadline <= g_now;
        case W_JOIN: return ((Thread*)t.obj)->state == FINISHED;
        case W_ONCE: return obj(t.obj)->once != 1;
        case W_GATE: return g_gate[(long)t.obj];
        default: return false;
    }
}

static void tick_to(int64_t v)
{
    if (v <= g_now) return;
    g_now = v;
    char b[64];
    int n = snprintf(b, sizeof b, "{\"e\":\"tick\",\"now\":%lld}", (long long)(g_now / 1000));
    append(b, (size_t)n);
}

static int64_t next_deadline()
{
    int64_t d = -1;
    for (int i = 0; i < g_nt; ++i)
    {
        Thread& t = g_t[i];
        if ((t.state == W_COND || t.state == W_FUTEX || t.state == W_SLEEP) && t.deadline > g_now && t.deadline < FAR_FUTURE && (d < 0 || t.deadline < d)) d = t.deadline;
    }
    return d;
}

static Thread* pick(bool sync)
{
    Thread* me = t_me;
    for (;;)
    {
        Thread* en[MAXT]; int n = 0; bool me_ok = false;
        for (int i = 0; i < g_nt; ++i) if (enabled(g_t[i])) { en[n++] = &g_t[i]; if (&g_t[i] == me) me_ok = true; }
        if (n == 0)
        {
            // nothing can run: a quiescent state of the whole system
            append("{\"e\":\"quiesce\"}", 15);
            if (vs::on_quiesce) vs::on_quiesce();
            bool woke = false;
            for (int i = 0; i < g_nt && !woke; ++i) if (g_t[i].state == W_SETTLE) { g_t[i].state = RUNNABLE; woke = true; }
            if (!woke)
            {
                int hs[MAXT], nh = 0;
                for (int i = 0; i < g_nt; ++i) if (g_t[i].state == W_HOLD) hs[nh++] = i;
                if (nh)
                {
                    if (g_plan.strat != S_DELAY && rng() % 3 == 0) for (int i = 0; i < nh; ++i) g_t[hs[i]].state = RUNNABLE;
                    else g_t[hs[g_plan.strat == S_DELAY ? 0 : rng() % nh]].state = RUNNABLE;
                    woke = true;
                }
            }
            if (!woke)
            {
                int64_t d = next_deadline();
                if (d < 0) { append("{\"e\":\"stuck\"}", 13); stop_child(0); }
                tick_to(d);
            }
            continue;
        }
        if (n == 1) return en[0];
        if (g_fair) return en[rng() % n];

        switch (g_plan.strat)
        {
            case S_RANDOM:
                if (me_ok && rngf() >= (sync ? g_plan.p_sync : g_plan.p_mem)) return me;
                return en[rng() % n];
            case S_PCT:
            {
                const uint32_t k = g_plan.pct_all ? g_sh->all_points : g_sh->sync_points;
                if (sync || g_plan.pct_all)
                    for (int i = 0; i < g_plan.pct_d - 1; ++i) if (g_change[i] == k && me) { me->prio = g_lowprio--; g_change[i] = 0; }
                if (me && me_ok && ++me->streak > 4000) { me->streak = 0; me->prio = g_lowprio--; }
                Thread* best = en[0];
                for (int i = 1; i < n; ++i) if (best->prio < en[i]->prio) best = en[i];
                if (best != me) best->streak = 0;
                return best;
            }
            case S_DELAY:
            {
                // deterministic: keep running the current thread; when it blocks take the next in
                // round-robin order; at a delay point skip to the next enabled thread.
                bool delay = false;
                if (sync) for (int i = 0; i < g_plan.ndelay; ++i) if (g_plan.delay[i] == g_sh->sync_points) delay = true;
                if (me_ok && !delay) { if (++me->streak < 4000) return me; me->streak = 0; }
                int from = me ? me->id : 0;
                for (int j = 1; j <= g_nt; ++j)
                {
                    Thread* c = &g_t[(from + j) % g_nt];
                    if (c != me && enabled(*c)) { c->streak = 0; return c; }
                }
                return en[0];
            }
        }
        return en[0];
    }
}

// complete whatever a thread was waiting for, now that it has been chosen
static void admit(Thread* t)
{
    switch (t->state)
    {
        case W_MUTEX: { Obj* o = obj(t->obj); o->owner = t->id; o->count = 1; vc_join(t->vc, o->vc); t->state = RUNNABLE; break; }
        case W_RD: { Obj* o = obj(t->obj); ++o->readers; o->reader_mask |= 1ull << t->id; vc_join(t->vc, o->vc); t->state = RUNNABLE; break; }
        case W_WR: { Obj* o = obj(t->obj); o->owner = t->id; vc_join(t->vc, o->vc); vc_join(t->vc, o->rvc); t->state = RUNNABLE; break; }
        case W_COND: // timed out: must still get the mutex
            t->result = ETIMEDOUT; t->state = W_MUTEX; t->obj = t->obj2; t->deadline = -1; break;
        case W_FUTEX: case W_SLEEP: t->result = ETIMEDOUT; t->deadline = -1; t->state = RUNNABLE; break;
        case W_JOIN: vc_join(t->vc, ((Thread*)t->obj)->vc); t->state = RUNNABLE; break;
        case W_ONCE: vc_join(t->vc, obj(t->obj)->vc); t->state = RUNNABLE; break;
        case W_GATE: vc_join(t->vc, obj(&g_gate[(long)t->obj])->vc); t->state = RUNNABLE; break;
        default: break;
    }
}

static void hand_to(Thread* n)
{
    g_cur = n;
    n->baton.store(1, std::memory_order_release);
    futex_wake_raw(&n->baton);
}
static void await_baton(Thread* me)
{
    while (me->baton.load(std::memory_order_acquire) == 0) futex_wait_raw(&me->baton, 0);
    me->baton.store(0, std::memory_order_relaxed);
}

// give others a chance; returns when this thread is RUNNABLE and chosen
static void reschedule(bool sync)
{
    ++t_in;
    Thread* me = t_me;
    for (;;)
    {
        if (g_sh->all_points - g_sh->mark > g_plan.limit)
        {
            g_fair = true;
            if (g_sh->all_points - g_sh->mark > 2 * g_plan.limit) { append("{\"e\":\"fault\",\"what\":\"livelock\"}", 31); stop_child(0); }
        }
        if (sync && g_plan.p_tick > 0 && rngf() < g_plan.p_tick)
        {
            int64_t d = next_deadline();
            if (d > 0 && rng() % 3) tick_to(d + ((rng() % 4) ? 0 : (int64_t)(rng() % 3) * 1000000));
            else if (rng() % 4 == 0) tick_to(g_now + 1000 + (int64_t)(rng() % 2000) * 1000);
        }
        if (sync && g_plan.p_spur > 0 && rngf() < g_plan.p_spur)
        {
            int c[MAXT], n = 0;
            for (int i = 0; i < g_nt; ++i) if (g_t[i].state == W_COND) c[n++] = i;
            if (n) { Thread& t = g_t[c[rng() % n]]; t.result = 0; t.state = W_MUTEX; t.obj = t.obj2; t.deadline = -1; }
        }
        Thread* n = pick(sync);
        admit(n);
        if (n != me)
        {
            hand_to(n);
            await_baton(me);
        }
        if (me->state == RUNNABLE) break;
        ++g_sh->all_points;
    }
    --t_in;
}

static inline void sync_point()
{
    if (!g_active || !t_me || t_in) return;
    ++g_sh->sync_points; ++g_sh->all_points;
    reschedule(true);
}
static inline void mem_point()
{
    if (!g_active || !t_me || t_in || t_own) return;
    ++g_sh->all_points;
    if (g_plan.strat == S_DELAY) return;
    if (g_plan.strat == S_PCT && !g_plan.pct_all) return;
    if (g_plan.strat == S_RANDOM && g_plan.p_mem <= 0) return;
    reschedule(false);
}
static void block(State s, const void* o, int64_t deadline = -1)
{
    Thread* me = t_me;
    me->state = s; me->obj = o; me->deadline = deadline;
    ++g_sh->sync_points; ++g_sh->all_points;
    reschedule(true);
}

void vs::own_work(bool on) { t_own = on; }
void vs::point() { sync_point(); }
void vs::gate_wait(int g) { if (!g_gate[g]) block(W_GATE, (void*)(long)g); else { sync_point(); acquire_from(obj(&g_gate[g])->vc); } }
void vs::gate_open(int g) { release_to(obj(&g_gate[g])->vc); g_gate[g] = true; sync_point(); }
void vs::hold() { block(W_HOLD, nullptr); }
void vs::settle() { block(W_SETTLE, nullptr); }
void vs::advance(int64_t ns) { ++t_in; tick_to(g_now + ns); --t_in; sync_point(); }
void vs::sleep_until(int64_t ns) { if (g_now < ns) block(W_SLEEP, nullptr, ns); }
void vs::note_read(const void* p, size_t n) { if (g_active && t_me && !t_in) { track(p, n, false); mem_point(); } }
void vs::note_write(const void* p, size_t n) { if (g_active && t_me && !t_in) { track(p, n, true); mem_point(); } }
[[noreturn]] void vs::finish() { append("{\"e\":\"end\"}", 11); stop_child(0); }

// ------------------------------------------------------------------ real functions
template<class F> static F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
#define MANAGED (g_active && t_me && !t_in)

// ------------------------------------------------------------------ threads
static void* trampoline(void* p)
{
    Thread* me = (Thread*)p;
    t_me = me;
    await_baton(me);
    me->ret = me->fn(me->arg);
    ++t_in;
    me->state = FINISHED;
    ++g_sh->sync_points; ++g_sh->all_points;
    Thread* n = pick(true);
    admit(n);
    while (n->state != RUNNABLE) { ++g_sh->all_points; n = pick(true); admit(n); }
    hand_to(n);
    return me->ret;
}

static Thread* make_thread(void* (*fn)(void*), void* arg)
{
    if (g_nt >= MAXT) vs::fail("too_many_threads");
    Thread* t = &g_t[g_nt];
    t->id = g_nt; t->state = RUNNABLE; t->deadline = -1; t->fn = fn; t->arg = arg; t->prio = 0;
    t->baton.store(0);
    snprintf(t->name, sizeof t->name, "t%d", t->id);
    memset(t->vc, 0, sizeof t->vc);
    ++g_nt;
    vc_join(t->vc, t_me->vc);
    t->vc[t->id] = 1;
    ++t_me->vc[t_me->id];
    t->prio = 2000 + (uint32_t)(rng() % 1000000);
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstacksize(&a, 256 * 1024);
    static auto rc = real<int(*)(pthread_t*, const pthread_attr_t*, void*(*)(void*), void*)>("pthread_create");
    if (rc(&t->pt, &a, trampoline, t)) vs::fail("pthread_create");
    pthread_attr_destroy(&a);
    return t;
}

extern "C" int pthread_create(pthread_t* out, const pthread_attr_t* a, void* (*fn)(void*), void* arg)
{
    static auto r = real<int(*)(pthread_t*, const pthread_attr_t*, void*(*)(void*), void*)>("pthread_create");
    if (!MANAGED) return r(out, a, fn, arg);
    ++t_in;
    Thread* t = make_thread(fn, arg);
    *out = t->pt;
    --t_in;
    sync_point();
    return 0;
}
static Thread* find_thread(pthread_t p)
{
    for (int i = g_nt - 1; i >= 0; --i) if (g_t[i].pt == p && !g_t[i].joined && i != 0) return &g_t[i];
    return nullptr;
}
extern "C" int pthread_join(pthread_t p, void** ret)
{
    static auto r = real<int(*)(pthread_t, void**)>("pthread_join");
    if (!MANAGED) return r(p, ret);
    sync_point();
    Thread* t = find_thread(p);
    if (!t || t->detached || t == t_me) return t == t_me ? EDEADLK : ESRCH;
    block(W_JOIN, t);
    t->joined = true;
    if (ret) *ret = t->ret;
    return r(p, nullptr);
}
extern "C" int pthread_detach(pthread_t p)
{
    static auto r = real<int(*)(pthread_t)>("pthread_detach");
    if (!MANAGED) return r(p);
    Thread* t = find_thread(p);
    if (t) t->detached = true;
    int rc = r(p);
    sync_point();
    return rc;
}
struct ClientStart { void (*fn)(void*); void* arg; };
static void* client_main(void* p) { ClientStart c = *(ClientStart*)p; c.fn(c.arg); return nullptr; }
void vs::spawn(void (*fn)(void*), void* arg, int* id)
{
    ++t_in;
    Thread* t = make_thread(client_main, new ClientStart{ fn, arg });
    *id = t->id;
    --t_in;
    sync_point();
}
void vs::join(int id) { block(W_JOIN, &g_t[id]); }

// ------------------------------------------------------------------ mutexes
static void check_obj(const void* m) { if (vs::freed(m)) vs::fail("use_after_free"); }
static bool recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }

static int mutex_lock(pthread_mutex_t* m, int64_t deadline = -1)
{
    check_obj(m);
    sync_point();
    Obj* o = obj(m);
    if (o->owner == t_me->id && recursive(m)) { ++o->count; return 0; }
    if (o->owner < 0) { o->owner = t_me->id; o->count = 1; acquire_from(o->vc); return 0; }
    (void)deadline;
    block(W_MUTEX, m);
    return 0;
}
extern "C" int pthread_mutex_lock(pthread_mutex_t* m)
{
    static auto r = real<int(*)(pthread_mutex_t*)>("pthread_mutex_lock");
    return MANAGED ? mutex_lock(m) : (g_active ? 0 : r(m));
}
extern "C" int pthread_mutex_trylock(pthread_mutex_t* m)
{
    static auto r = real<int(*)(pthread_mutex_t*)>("pthread_mutex_trylock");
    if (!MANAGED) return g_active ? 0 : r(m);
    check_obj(m);
    sync_point();
    Obj* o = obj(m);
    if (o->owner == t_me->id && recursive(m)) { ++o->count; return 0; }
    if (o->owner >= 0) return EBUSY;
    o->owner = t_me->id; o->count = 1; acquire_from(o->vc);
    return 0;
}
static void mutex_release(Obj* o) { release_to(o->vc); o->owner = -1; o->count = 0; }
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m)
{
    static auto r = real<int(*)(pthread_mutex_t*)>("pthread_mutex_unlock");
    if (!MANAGED) return g_active ? 0 : r(m);
    check_obj(m);
    Obj* o = obj(m);
    if (o->owner != t_me->id) vs::fail("unlock_of_mutex_not_owned");
    if (--o->count == 0) mutex_release(o);
    sync_point();
    return 0;
}
static int64_t to_virtual(clockid_t c, const struct timespec* ts)
{
    __int128 v = (__int128)ts->tv_sec * 1000000000 + ts->tv_nsec - (c == CLOCK_REALTIME ? REAL_BASE : MONO_BASE);
    if (v < 0) v = 0;
    if (v > ((__int128)1 << 62)) v = (__int128)1 << 62;
    return (int64_t)v;
}
extern "C" int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) { return pthread_mutex_lock(m); }
extern "C" int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec*) { return pthread_mutex_lock(m); }
extern "C" int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a)
{
    static auto r = real<int(*)(pthread_mutex_t*, const pthread_mutexattr_t*)>("pthread_mutex_init");
    return r(m, a);
}
extern "C" int pthread_mutex_destroy(pthread_mutex_t*) { return 0; }

// ------------------------------------------------------------------ condition variables
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, int64_t deadline)
{
    check_obj(c); check_obj(m);
    sync_point();
    Obj* o = obj(m);
    if (o->owner != t_me->id) vs::fail("wait_without_mutex");
    mutex_release(o);
    t_me->result = 0;
    t_me->obj2 = m;
    block(W_COND, c, deadline);
    return t_me->result;
}
extern "C" int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    static auto r = real<int(*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait");
    return MANAGED ? cond_wait(c, m, -1) : r(c, m);
}
extern "C" int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{
    static auto r = real<int(*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*)>("pthread_cond_timedwait");
    return MANAGED ? cond_wait(c, m, to_virtual(CLOCK_REALTIME, ts)) : r(c, m, ts);
}
extern "C" int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t ck, const struct timespec* ts)
{
    static auto r = real<int(*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*)>("pthread_cond_clockwait");
    return MANAGED ? cond_wait(c, m, to_virtual(ck, ts)) : r(c, m, ck, ts);
}
static void cond_wake(const void* c, bool all)
{
    int w[MAXT], n = 0;
    for (int i = 0; i < g_nt; ++i) if (g_t[i].state == W_COND && g_t[i].obj == c) w[n++] = i;
    if (!n) return;
    if (!all) { int k = (g_plan.fifo_signal || g_plan.strat == S_DELAY) ? 0 : (int)(rng() % n); w[0] = w[k]; n = 1; }
    for (int i = 0; i < n; ++i) { Thread& t = g_t[w[i]]; t.result = 0; t.state = W_MUTEX; t.obj = t.obj2; t.deadline = -1; }
}
extern "C" int pthread_cond_signal(pthread_cond_t* c)
{
    static auto r = real<int(*)(pthread_cond_t*)>("pthread_cond_signal");
    if (!MANAGED) return g_active ? 0 : r(c);
    check_obj(c);
    sync_point();
    cond_wake(c, false);
    return 0;
}
extern "C" int pthread_cond_broadcast(pthread_cond_t* c)
{
    static auto r = real<int(*)(pthread_cond_t*)>("pthread_cond_broadcast");
    if (!MANAGED) return g_active ? 0 : r(c);
    check_obj(c);
    sync_point();
    cond_wake(c, true);
    return 0;
}
extern "C" int pthread_cond_destroy(pthread_cond_t* c)
{
    if (MANAGED) for (int i = 0; i < g_nt; ++i) if (g_t[i].state == W_COND && g_t[i].obj == c) vs::fail("condition_destroyed_while_waited_on");
    return 0;
}
extern "C" int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset((void*)c, 0, sizeof *c); return 0; }

// ------------------------------------------------------------------ reader/writer locks
extern "C" int pthread_rwlock_init(pthread_rwlock_t* m, const pthread_rwlockattr_t*) { memset((void*)m, 0, sizeof *m); return 0; }
extern "C" int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
extern "C" int pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    static auto r = real<int(*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock");
    if (!MANAGED) return g_active ? 0 : r(m);
    check_obj(m);
    sync_point();
    Obj* o = obj(m);
    if (o->owner < 0) { ++o->readers; o->reader_mask |= 1ull << t_me->id; acquire_from(o->vc); return 0; }
    block(W_RD, m);
    return 0;
}
extern "C" int pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    static auto r = real<int(*)(pthread_rwlock_t*)>("pthread_rwlock_wrlock");
    if (!MANAGED) return g_active ? 0 : r(m);
    check_obj(m);
    sync_point();
    Obj* o = obj(m);
    if (o->owner < 0 && o->readers == 0) { o->owner = t_me->id; acquire_from(o->vc); acquire_from(o->rvc); return 0; }
    block(W_WR, m);
    return 0;
}
extern "C" int pthread_rwlock_tryrdlock(pthread_rwlock_t* m)
{
    static auto r = real<int(*)(pthread_rwlock_t*)>("pthread_rwlock_tryrdlock");
    if (!MANAGED) return g_active ? 0 : r(m);
    sync_point();
    Obj* o = obj(m);
    if (o->owner >= 0) return EBUSY;
    ++o->readers; o->reader_mask |= 1ull << t_me->id; acquire_from(o->vc);
    return 0;
}
extern "C" int pthread_rwlock_trywrlock(pthread_rwlock_t* m)
{
    static auto r = real<int(*)(pthread_rwlock_t*)>("pthread_rwlock_trywrlock");
    if (!MANAGED) return g_active ? 0 : r(m);
    sync_point();
    Obj* o = obj(m);
    if (o->owner >= 0 || o->readers) return EBUSY;
    o->owner = t_me->id; acquire_from(o->vc); acquire_from(o->rvc);
    return 0;
}
extern "C" int pthread_rwlock_timedrdlock(pthread_rwlock_t* m, const struct timespec*) { return pthread_rwlock_rdlock(m); }
extern "C" int pthread_rwlock_timedwrlock(pthread_rwlock_t* m, const struct timespec*) { return pthread_rwlock_wrlock(m); }
extern "C" int pthread_rwlock_clockrdlock(pthread_rwlock_t* m, clockid_t, const struct timespec*) { return pthread_rwlock_rdlock(m); }
extern "C" int pthread_rwlock_clockwrlock(pthread_rwlock_t* m, clockid_t, const struct timespec*) { return pthread_rwlock_wrlock(m); }
extern "C" int pthread_rwlock_unlock(pthread_rwlock_t* m)
{
    static auto r = real<int(*)(pthread_rwlock_t*)>("pthread_rwlock_unlock");
    if (!MANAGED) return g_active ? 0 : r(m);
    check_obj(m);
    Obj* o = obj(m);
    if (o->owner == t_me->id) { release_to(o->vc); o->owner = -1; }
    else if (o->reader_mask & (1ull << t_me->id)) { release_to(o->rvc); if (--o->readers == 0) o->reader_mask = 0; }
    else vs::fail("unlock_of_rwlock_not_owned");
    sync_point();
    return 0;
}

// ------------------------------------------------------------------ once, futex, time, yielding
extern "C" int pthread_once(pthread_once_t* c, void (*fn)(void))
{
    static auto r = real<int(*)(pthread_once_t*, void(*)(void))>("pthread_once");
    if (!MANAGED) return r(c, fn);
    sync_point();
    Obj* o = obj(c);
    for (;;)
    {
        if (*(volatile int*)c == 2) o->once = 2;            // completed before scheduling started
        else if (*(volatile int*)c == 0 && o->once == 2) o->once = 0;   // object re-used
        if (o->once == 2) { acquire_from(o->vc); return 0; }
        if (o->once == 0) break;
        block(W_ONCE, c);
    }
    o->once = 1;
    try { fn(); } catch (...) { o->once = 0; *(volatile int*)c = 0; throw; }
    release_to(o->vc);
    o->once = 2;
    *(volatile int*)c = 2;
    sync_point();
    return 0;
}

extern "C" long syscall(long n, ...)
{
    va_list ap; va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && MANAGED)
    {
        int op = (int)b & FUTEX_CMD_MASK;
        std::atomic<int>* p = (std::atomic<int>*)a;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)
        {
            sync_point();
            if (p->load() != (int)c) { errno = EAGAIN; return -1; }
            int64_t dl = -1;
            if (d)
            {
                const struct timespec* ts = (const struct timespec*)d;
                if (op == FUTEX_WAIT) dl = g_now + (int64_t)ts->tv_sec * 1000000000 + ts->tv_nsec;
                else dl = to_virtual(((int)b & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts);
            }
            t_me->result = 0;
            block(W_FUTEX, p, dl);
            acquire_from(obj(p)->vc);
            if (t_me->result == ETIMEDOUT) { errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET)
        {
            sync_point();
            release_to(obj(p)->vc);
            long w = 0;
            for (int i = 0; i < g_nt && w < c; ++i)
                if (g_t[i].state == W_FUTEX && g_t[i].obj == p) { g_t[i].state = RUNNABLE; g_t[i].deadline = -1; g_t[i].result = 0; ++w; }
            return w;
        }
    }
    long r = raw_syscall(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}

extern "C" int clock_gettime(clockid_t c, struct timespec* ts)
{
    if (!g_active) { long r = raw_syscall(SYS_clock_gettime, c, (long)ts, 0, 0, 0, 0); if (r < 0) { errno = (int)-r; return -1; } return 0; }
    if (MANAGED) sync_point();
    int64_t v = g_now + ((c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? REAL_BASE : MONO_BASE);
    ts->tv_sec = v / 1000000000; ts->tv_nsec = v % 1000000000;
    return 0;
}
extern "C" int clock_nanosleep(clockid_t c, int flags, const struct timespec* ts, struct timespec*)
{
    if (!MANAGED) return 0;
    int64_t dl = (flags & TIMER_ABSTIME) ? to_virtual(c, ts) : g_now + (int64_t)ts->tv_sec * 1000000000 + ts->tv_nsec;
    if (g_now < dl) block(W_SLEEP, nullptr, dl);
    return 0;
}
extern "C" int nanosleep(const struct timespec* ts, struct timespec*) { return clock_nanosleep(CLOCK_MONOTONIC, 0, ts, nullptr); }
extern "C" int usleep(useconds_t us) { struct timespec ts{ (time_t)(us / 1000000), (long)(us % 1000000) * 1000 }; return clock_nanosleep(CLOCK_MONOTONIC, 0, &ts, nullptr); }
extern "C" int sched_yield()
{
    if (!MANAGED) return 0;
    if (g_plan.strat == S_PCT) t_me->prio = g_lowprio--;
    sync_point();
    return 0;
}

// ------------------------------------------------------------------ instrumented memory accesses
#define ACC(p, n, w) do { if (MANAGED) { track(p, n, w); mem_point(); } } while (0)
extern "C"
{
    void __tsan_init() {}
    void __tsan_func_entry(void*) {}
    void __tsan_func_exit() {}
    void __tsan_read1(void* p) { ACC(p, 1, false); }
    void __tsan_read2(void* p) { ACC(p, 2, false); }
    void __tsan_read4(void* p) { ACC(p, 4, false); }
    void __tsan_read8(void* p) { ACC(p, 8, false); }
    void __tsan_read16(void* p) { ACC(p, 16, false); }
    void __tsan_write1(void* p) { ACC(p, 1, true); }
    void __tsan_write2(void* p) { ACC(p, 2, true); }
    void __tsan_write4(void* p) { ACC(p, 4, true); }
    void __tsan_write8(void* p) { ACC(p, 8, true); }
    void __tsan_write16(void* p) { ACC(p, 16, true); }
    void __tsan_unaligned_read2(void* p) { ACC(p, 2, false); }
    void __tsan_unaligned_read4(void* p) { ACC(p, 4, false); }
    void __tsan_unaligned_read8(void* p) { ACC(p, 8, false); }
    void __tsan_unaligned_read16(void* p) { ACC(p, 16, false); }
    void __tsan_unaligned_write2(void* p) { ACC(p, 2, true); }
    void __tsan_unaligned_write4(void* p) { ACC(p, 4, true); }
    void __tsan_unaligned_write8(void* p) { ACC(p, 8, true); }
    void __tsan_unaligned_write16(void* p) { ACC(p, 16, true); }
    void __tsan_read_range(void* p, unsigned long n) { if (n) ACC(p, n, false); }
    void __tsan_write_range(void* p, unsigned long n) { if (n) ACC(p, n, true); }
    void __tsan_volatile_read1(void* p) { ACC(p, 1, false); }
    void __tsan_volatile_read4(void* p) { ACC(p, 4, false); }
    void __tsan_volatile_read8(void* p) { ACC(p, 8, false); }
    void __tsan_volatile_write1(void* p) { ACC(p, 1, true); }
    void __tsan_volatile_write4(void* p) { ACC(p, 4, true); }
    void __tsan_volatile_write8(void* p) { ACC(p, 8, true); }
    void __tsan_vptr_update(void** p, void*) { ACC(p, 8, true); }
    void __tsan_vptr_read(void** p) { ACC(p, 8, false); }
    void __tsan_atomic_thread_fence(int) {}
    void __tsan_atomic_signal_fence(int) {}
}
static void atomic_pre(const volatile void* p) { if (MANAGED) { if (vs::freed((const void*)p)) vs::fail("use_after_free"); sync_point(); Obj* o = obj((const void*)p); acquire_from(o->vc); } }
static void atomic_post(const volatile void* p) { if (MANAGED) { Obj* o = obj((const void*)p); release_to(o->vc); } }
#define ATOMICS(BITS, T) \
extern "C" T __tsan_atomic##BITS##_load(const volatile T* p, int) { atomic_pre(p); return *p; } \
extern "C" void __tsan_atomic##BITS##_store(volatile T* p, T v, int) { atomic_pre(p); *p = v; atomic_post(p); } \
extern "C" T __tsan_atomic##BITS##_exchange(volatile T* p, T v, int) { atomic_pre(p); T o = *p; *p = v; atomic_post(p); return o; } \
extern "C" T __tsan_atomic##BITS##_fetch_add(volatile T* p, T v, int) { atomic_pre(p); T o = *p; *p = (T)(o + v); atomic_post(p); return o; } \
extern "C" T __tsan_atomic##BITS##_fetch_sub(volatile T* p, T v, int) { atomic_pre(p); T o = *p; *p = (T)(o - v); atomic_post(p); return o; } \
extern "C" T __tsan_atomic##BITS##_fetch_and(volatile T* p, T v, int) { atomic_pre(p); T o = *p; *p = (T)(o & v); atomic_post(p); return o; } \
extern "C" T __tsan_atomic##BITS##_fetch_or(volatile T* p, T v, int) { atomic_pre(p); T o = *p; *p = (T)(o | v); atomic_post(p); return o; } \
extern "C" T __tsan_atomic##BITS##_fetch_xor(volatile T* p, T v, int) { atomic_pre(p); T o = *p; *p = (T)(o ^ v); atomic_post(p); return o; } \
extern "C" int __tsan_atomic##BITS##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { atomic_pre(p); T o = *p; if (o == *e) { *p = v; atomic_post(p); return 1; } *e = o; return 0; } \
extern "C" int __tsan_atomic##BITS##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { atomic_pre(p); T o = *p; if (o == *e) { *p = v; atomic_post(p); return 1; } *e = o; return 0; } \
extern "C" T __tsan_atomic##BITS##_compare_exchange_val(volatile T* p, T e, T v, int, int) { atomic_pre(p); T o = *p; if (o == e) { *p = v; atomic_post(p); } return o; }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)

// container internals that live in libstdc++.so and would otherwise be invisible
namespace std { namespace __detail {
    struct _List_node_base { _List_node_base* _M_next; _List_node_base* _M_prev;
        void _M_hook(_List_node_base* const) noexcept; void _M_unhook() noexcept;
        void _M_transfer(_List_node_base* const, _List_node_base* const) noexcept; };
    void _List_node_base::_M_hook(_List_node_base* const pos) noexcept
    {
        vs::note_write(&_M_next, 8); vs::note_write(&_M_prev, 8);
        vs::note_read(&pos->_M_prev, 8);
        _M_next = pos; _M_prev = pos->_M_prev;
        vs::note_write(&pos->_M_prev->_M_next, 8);
        pos->_M_prev->_M_next = this;
        vs::note_write(&pos->_M_prev, 8);
        pos->_M_prev = this;
    }
    void _List_node_base::_M_unhook() noexcept
    {
        vs::note_read(&_M_next, 8); vs::note_read(&_M_prev, 8);
        _List_node_base* const n = _M_next; _List_node_base* const p = _M_prev;
        vs::note_write(&p->_M_next, 8);
        p->_M_next = n;
        vs::note_write(&n->_M_prev, 8);
        n->_M_prev = p;
    }
    void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept
    {
        if (this == last) return;
        vs::note_write(&last->_M_prev, 8); vs::note_write(&first->_M_prev, 8); vs::note_write(&this->_M_prev, 8);
        last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
        _List_node_base* const tmp = this->_M_prev;
        this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = tmp;
    }
} }
struct RbNode { int color; RbNode* parent; RbNode* left; RbNode* right; };
// std::_Rb_tree_insert_and_rebalance(bool, node*, node*, node&) and _Rb_tree_rebalance_for_erase(node*, node&)
extern "C" void _ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool l, RbNode* x, RbNode* p, RbNode* h)
{
    static auto r = real<void(*)(bool, RbNode*, RbNode*, RbNode*)>("_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_");
    vs::note_write(&h->parent, 24); vs::note_write(&p->parent, 24); vs::note_write(&x->parent, 24);
    r(l, x, p, h);
}
extern "C" RbNode* _ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(RbNode* z, RbNode* h)
{
    static auto r = real<RbNode*(*)(RbNode*, RbNode*)>("_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_");
    vs::note_write(&h->parent, 24); vs::note_write(&z->parent, 24);
    return r(z, h);
}
extern "C" RbNode* _ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(RbNode* x)
{
    static auto r = real<RbNode*(*)(RbNode*)>("_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base");
    vs::note_read(&x->parent, 24);
    return r(x);
}

// ------------------------------------------------------------------ driver
static void on_signal(int sig)
{
    char b[96];
    int n;
    if (sig == SIGPROF) n = snprintf(b, sizeof b, "{\"e\":\"fault\",\"what\":\"cpu_limit\"}");
    else n = snprintf(b, sizeof b, "{\"e\":\"fault\",\"what\":\"signal_%d\"}", sig);
    append(b, (size_t)n);
    stop_child(0);
}

static void child(const std::string& text, const vs::Hooks& hooks)
{
    stack_t ss{};
    ss.ss_sp = mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    ss.ss_size = 65536;
    sigaltstack(&ss, nullptr);
    struct sigaction sa{};
    sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK;
    for (int s : { SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGPROF }) sigaction(s, &sa, nullptr);
    struct itimerval it{}; it.it_value.tv_sec = 20;
    setitimer(ITIMER_PROF, &it, nullptr);
    int fd = open("/dev/null", O_WRONLY);
    dup2(fd, 2);                                            // std::terminate's message

    g_rng = g_plan.seed * 0x9E3779B97F4A7C15ull + 0x1234567;
    for (int i = 0; i < 8; ++i) rng();
    for (int i = 0; i < 15; ++i) g_change[i] = 1 + (uint32_t)(rng() % (g_plan.pct_k ? g_plan.pct_k : 1));
    g_obj = (Obj*)mmap(nullptr, NOBJ * sizeof(Obj), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g_rshared = new std::unordered_map<uint64_t, std::vector<uint32_t>>();
    if (hooks.before) hooks.before(text);

    Thread* t = &g_t[0];
    t->id = 0; t->state = RUNNABLE; t->deadline = -1; t->baton.store(0); t->pt = pthread_self();
    t->vc[0] = 1; t->prio = 2000 + (uint32_t)(rng() % 1000000);
    snprintf(t->name, sizeof t->name, "c0");
    g_nt = 1; t_me = t; g_cur = t;
    g_active = true;
    hooks.scenario(text);
    vs::finish();
}

static int run_one(const std::string& text, const vs::Hooks& hooks)
{
    g_sh->len = 0; g_sh->nev = 0; g_sh->sync_points = 0; g_sh->all_points = 0; g_sh->mark = 0; g_sh->overflow = 0; g_sh->done = 0;
    memset(g_sh->extra, 0, sizeof g_sh->extra);
    pid_t pid = fork();
    if (pid == 0) child(text, hooks);
    int st = 0;
    for (;;)
    {
        pid_t r = waitpid(pid, &st, 0);
        if (r == pid || (r < 0 && errno != EINTR)) break;
    }
    if (hooks.after) hooks.after();
    g_sh->buf[g_sh->len] = 0;
    if (!g_sh->done)
    {
        fprintf(stderr, "vsched: child ended abnormally, status %x\n", st);
        return 1;
    }
    return g_sh->overflow ? 2 : 0;
}

static double wall()
{
    struct timeval tv; gettimeofday(&tv, nullptr);
    return (double)tv.tv_sec + (double)tv.tv_usec * 1e-6;
}

// usage: harness SCENARIOS OUT key=value...
//   SCENARIOS  one scenario per line:  <name> TAB <text>
//   OUT        one JSON object per distinct trace
int vs::driver(int argc, char** argv, const Hooks& hooks)
{
    if (!getenv("VSCHED_NOASLR"))
    {
        setenv("VSCHED_NOASLR", "1", 1);
        if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    if (argc < 3) { fprintf(stderr, "usage: %s SCENARIOS OUT [key=value]...\n", argv[0]); return 2; }
    heap_init();
    uint64_t seed = 1; int worker = 0, workers = 1, runs = 100, delay = 1, delay2 = 0, cpu = -1, single = 0; double secs = 10;
    int maxout = 1000000, maxper = 1000000; std::string plan;
    for (int i = 3; i < argc; ++i)
    {
        std::string a = argv[i]; auto eq = a.find('='); std::string k = a.substr(0, eq), v = a.substr(eq + 1);
        if (k == "seed") seed = strtoull(v.c_str(), nullptr, 10);
        else if (k == "worker") worker = atoi(v.c_str());
        else if (k == "workers") workers = atoi(v.c_str());
        else if (k == "runs") runs = atoi(v.c_str());
        else if (k == "secs") secs = atof(v.c_str());
        else if (k == "delay") delay = atoi(v.c_str());
        else if (k == "delay2") delay2 = atoi(v.c_str());
        else if (k == "cpu") cpu = atoi(v.c_str());
        else if (k == "maxout") maxout = atoi(v.c_str());
        else if (k == "maxper") maxper = atoi(v.c_str());
        else if (k == "plan") { plan = v; single = 1; }
    }
    if (cpu >= 0) { cpu_set_t s; CPU_ZERO(&s); CPU_SET(cpu, &s); sched_setaffinity(0, sizeof s, &s); }
    if (hooks.setup) hooks.setup(worker);
    g_sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);

    struct Sc { std::string name, text; std::unordered_set<uint64_t> seen; uint32_t sync = 0, all = 0, runs = 0, dl = 0, next_delay = 0, d2a = 0, d2b = 0, odd = 0; bool d2done = false; };
    std::vector<Sc> scs;
    {
        FILE* f = fopen(argv[1], "r");
        if (!f) { perror(argv[1]); return 2; }
        char* line = nullptr; size_t cap = 0; ssize_t n;
        while ((n = getline(&line, &cap, f)) > 0)
        {
            if (line[n - 1] == '\n') line[--n] = 0;
            char* tab = strchr(line, '\t');
            if (!tab) continue;
            Sc s; s.name.assign(line, tab - line); s.text = tab + 1;
            scs.push_back(std::move(s));
        }
        free(line); fclose(f);
    }
    FILE* out = fopen(argv[2], "w");
    if (!out) { perror(argv[2]); return 2; }

    auto plan_text = [&]() {
        char b[256];
        int n = snprintf(b, sizeof b, "%d:%llu:%g:%g:%d:%d:%u:%g:%g:%d:%d", (int)g_plan.strat, (unsigned long long)g_plan.seed, g_plan.p_sync, g_plan.p_mem,
            (int)g_plan.pct_all, g_plan.pct_d, g_plan.pct_k, g_plan.p_tick, g_plan.p_spur, (int)g_plan.fifo_signal, g_plan.ndelay);
        for (int i = 0; i < g_plan.ndelay; ++i) n += snprintf(b + n, sizeof b - (size_t)n, ":%u", g_plan.delay[i]);
        return std::string(b);
    };
    long total = 0, distinct = 0, pts = 0;
    int bad = 0;
    auto execute = [&](size_t i) {
        Sc& s = scs[i];
        int rc = run_one(s.text, hooks);
        ++total; ++s.runs; pts += g_sh->sync_points;
        if (rc) { ++bad; return; }
        s.sync = s.sync < g_sh->sync_points ? g_sh->sync_points : s.sync;
        s.all = s.all < g_sh->all_points ? g_sh->all_points : s.all;
        uint64_t h = 1469598103934665603ull;
        for (size_t k = 0; k < g_sh->len; ++k) h = (h ^ (unsigned char)g_sh->buf[k]) * 1099511628211ull;
        const bool odd = memmem(g_sh->buf, g_sh->len, "\"e\":\"fault\"", 11) != nullptr || memmem(g_sh->buf, g_sh->len, "\"e\":\"stuck\"", 11) != nullptr;
        if ((s.seen.size() < (size_t)maxper && distinct < maxout) || (odd && s.odd < 50))
          if (s.seen.insert(h).second)
        {
            ++distinct;
            s.odd += odd;
            fprintf(out, "{\"sc\":\"%s\",\"plan\":\"%s\",\"ev\":[", s.name.c_str(), plan_text().c_str());
            for (size_t k = 0; k < g_sh->len; ++k) if (g_sh->buf[k] != '\n') fputc(g_sh->buf[k], out);
            fputs("]}\n", out);
        }
    };

    const double t0 = wall();
    if (single)
    {
        // replay one execution exactly
        std::vector<double> v; const char* p = plan.c_str();
        unsigned long long sd = 0;
        int idx = 0;
        while (*p) { char* e; if (idx == 1) sd = strtoull(p, &e, 10); v.push_back(strtod(p, &e)); p = *e ? e + 1 : e; ++idx; }
        g_plan = Plan{};
        g_plan.strat = (Strat)(int)v[0]; g_plan.seed = sd; g_plan.p_sync = v[2]; g_plan.p_mem = v[3]; g_plan.pct_all = v[4] != 0;
        g_plan.pct_d = (int)v[5]; g_plan.pct_k = (uint32_t)v[6]; g_plan.p_tick = v[7]; g_plan.p_spur = v[8]; g_plan.fifo_signal = v[9] != 0; g_plan.ndelay = (int)v[10];
        for (int i = 0; i < g_plan.ndelay; ++i) g_plan.delay[i] = (uint32_t)v[11 + i];
        for (size_t i = 0; i < scs.size(); ++i) execute(i);
    }
    else
    {
        uint64_t r = seed * 7919 + (uint64_t)worker * 104729 + 17;
        auto rr = [&]() { r ^= r << 13; r ^= r >> 7; r ^= r << 17; return r * 0x2545F4914F6CDD1Dull; };
        for (int i = 0; i < 10; ++i) rr();
        // base run of every scenario owned by this worker, then rounds
        bool more = true;
        for (int round = 0; more && wall() - t0 < secs; ++round)
        {
            more = false;
            for (size_t i = (size_t)worker % (size_t)workers; i < scs.size() && wall() - t0 < secs; i += (size_t)workers)
            {
                Sc& s = scs[i];
                if ((int)s.runs >= runs || bad > 20) continue;
                more = true;
                g_plan = Plan{};
                g_plan.seed = rr();
                if (s.runs == 0) { g_plan.strat = S_DELAY; execute(i); continue; }
                // systematic part: every single delay point, then pairs
                if (delay && s.next_delay < s.sync && (s.runs & 1))
                {
                    g_plan.strat = S_DELAY; g_plan.ndelay = 1; g_plan.delay[0] = ++s.next_delay;
                    execute(i); continue;
                }
                if (delay2 && !s.d2done && s.next_delay >= s.sync && (s.runs & 1))
                {
                    if (++s.d2b > s.sync) { ++s.d2a; s.d2b = s.d2a + 1; }
                    if (s.d2a >= s.sync) s.d2done = true;
                    else
                    {
                        g_plan.strat = S_DELAY; g_plan.ndelay = 2; g_plan.delay[0] = s.d2a; g_plan.delay[1] = s.d2b;
                        execute(i); continue;
                    }
                }
                const uint64_t k = rr() % 100;
                if (k < 30) { g_plan.strat = S_RANDOM; g_plan.p_sync = 0.5; }
                else if (k < 45) { g_plan.strat = S_RANDOM; g_plan.p_sync = 0.1; }
                else if (k < 55) { g_plan.strat = S_RANDOM; g_plan.p_sync = 0.3; g_plan.p_mem = 0.05; }
                else if (k < 60) { g_plan.strat = S_RANDOM; g_plan.p_sync = 0.3; g_plan.p_mem = 0.3; }
                else if (k < 85) { g_plan.strat = S_PCT; g_plan.pct_d = 2 + (int)(rr() % 4); g_plan.pct_k = s.sync + 1; }
                else { g_plan.strat = S_PCT; g_plan.pct_all = true; g_plan.pct_d = 2 + (int)(rr() % 4); g_plan.pct_k = s.all + 1; }
                if (rr() % 3 == 0) g_plan.p_tick = 0.02;
                if (rr() % 5 == 0) g_plan.p_spur = 0.05;
                g_plan.fifo_signal = rr() % 3 == 0;
                execute(i);
            }
            if (bad > 20) break;
        }
    }
    fclose(out);
    printf("{\"executions\":%ld,\"distinct\":%ld,\"sync_points\":%ld,\"bad\":%d,\"secs\":%.1f}\n", total, distinct, pts, bad, wall() - t0);
    return bad > 20 ? 3 : 0;
}
