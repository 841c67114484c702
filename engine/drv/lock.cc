// Locks, condition variables, fences, barriers, guards.
#include "cppev/lock.h"
#include <errno.h>
#include <system_error>
#include <functional>
#include <mutex>
#include <type_traits>
#include "vf.h"

using namespace cppev;

#define TRY(x) \
    threw = false; \
    code = 0; \
    try \
    { \
        x; \
    } \
    catch (const std::system_error &e) \
    { \
        threw = true; \
        code = e.code().value(); \
    }

// ---- C25 : what the kernel objects are made with, and what becomes of errors
extern "C" void C25_mutex()
{
    bool threw;
    int code;
    vf_ok("pthread_mutex_destroy");
    TRY(pshared_lock l;
        long attr = vf_arg("pthread_mutexattr_init", 0, 0);
        vf_assert(vf_oks("pthread_mutex_init") == 1 && vf_arg("pthread_mutex_init", 0, 1) == attr && attr != 0, "the lock is made with its attributes");
        vf_assert(vf_oks("pthread_mutexattr_setpshared") >= 1 && vf_arg("pthread_mutexattr_setpshared", -1, 0) == attr
            && vf_arg("pthread_mutexattr_setpshared", -1, 1) == PTHREAD_PROCESS_SHARED, "the lock can be used by other processes");
        vf_assert(vf_pos("pthread_mutexattr_init", 0) < vf_pos("pthread_mutexattr_setpshared", -1)
            && vf_pos("pthread_mutexattr_setpshared", -1) < vf_pos("pthread_mutex_init", 0), "attributes are set before the lock is made");
        vf_assert(vf_count("pthread_mutexattr_settype") == 0 || vf_pos("pthread_mutexattr_settype", -1) < vf_pos("pthread_mutex_init", 0), "attributes are set before the lock is made");
        vf_assert(vf_oks("pthread_mutexattr_settype") >= 1 && vf_arg("pthread_mutexattr_settype", -1, 0) == attr
            && vf_arg("pthread_mutexattr_settype", -1, 1) == PTHREAD_MUTEX_ERRORCHECK, "locking twice and unlocking what is not held are errors");
        vf_cover("made"));
    vf_assert(threw == (vf_nfail() > 0), "a failure to make the lock is thrown");
    if (threw)
    {
        vf_assert(code == vf_lasterr(), "the error of the failing call is thrown");
        vf_cover("throws");
    }
    else
    {
        vf_assert(vf_count("pthread_mutex_destroy") == 1 && vf_arg("pthread_mutex_destroy", 0, 0) == vf_arg("pthread_mutex_init", 0, 0), "the lock is destroyed once");
    }
    vf_cover("end");
}

extern "C" void C25_cond()
{
    bool threw;
    int code;
    vf_ok("pthread_cond_destroy");
    TRY(pshared_cond c;
        long attr = vf_arg("pthread_condattr_init", 0, 0);
        vf_assert(vf_oks("pthread_cond_init") == 1 && vf_arg("pthread_cond_init", 0, 1) == attr && attr != 0, "the condition is made with its attributes");
        vf_assert(vf_oks("pthread_condattr_setpshared") >= 1 && vf_arg("pthread_condattr_setpshared", -1, 0) == attr
            && vf_arg("pthread_condattr_setpshared", -1, 1) == PTHREAD_PROCESS_SHARED, "the condition can be used by other processes");
        vf_assert(vf_pos("pthread_condattr_init", 0) < vf_pos("pthread_condattr_setpshared", -1)
            && vf_pos("pthread_condattr_setpshared", -1) < vf_pos("pthread_cond_init", 0), "attributes are set before the condition is made");
        vf_cover("made"));
    vf_assert(threw == (vf_nfail() > 0), "a failure to make the condition is thrown");
    if (threw)
    {
        vf_assert(code == vf_lasterr(), "the error of the failing call is thrown");
        vf_cover("throws");
    }
    else
    {
        vf_assert(vf_count("pthread_cond_destroy") == 1 && vf_arg("pthread_cond_destroy", 0, 0) == vf_arg("pthread_cond_init", 0, 0), "the condition is destroyed once");
    }
    vf_cover("end");
}

extern "C" void C25_rwlock()
{
    bool threw;
    int code;
    vf_ok("pthread_rwlock_destroy");
    TRY(pshared_rwlock l;
        long attr = vf_arg("pthread_rwlockattr_init", 0, 0);
        vf_assert(vf_oks("pthread_rwlock_init") == 1 && vf_arg("pthread_rwlock_init", 0, 1) == attr && attr != 0, "the lock is made with its attributes");
        vf_assert(vf_oks("pthread_rwlockattr_setpshared") >= 1 && vf_arg("pthread_rwlockattr_setpshared", -1, 0) == attr
            && vf_arg("pthread_rwlockattr_setpshared", -1, 1) == PTHREAD_PROCESS_SHARED, "the lock can be used by other processes");
        vf_assert(vf_pos("pthread_rwlockattr_init", 0) < vf_pos("pthread_rwlockattr_setpshared", -1)
            && vf_pos("pthread_rwlockattr_setpshared", -1) < vf_pos("pthread_rwlock_init", 0), "attributes are set before the lock is made");
        vf_cover("made"));
    vf_assert(threw == (vf_nfail() > 0), "a failure to make the lock is thrown");
    if (threw)
    {
        vf_assert(code == vf_lasterr(), "the error of the failing call is thrown");
        vf_cover("throws");
    }
    else
    {
        vf_assert(vf_count("pthread_rwlock_destroy") == 1 && vf_arg("pthread_rwlock_destroy", 0, 0) == vf_arg("pthread_rwlock_init", 0, 0), "the lock is destroyed once");
    }
    vf_cover("end");
}

extern "C" void C25_spin()
{
    bool threw;
    int code;
    vf_ok("pthread_spin_destroy");
    TRY(spinlock l;
        vf_assert(vf_oks("pthread_spin_init") == 1, "the lock is made");
        vf_cover("made"));
    vf_assert(threw == (vf_nfail() > 0), "a failure to make the lock is thrown");
    vf_assert(!threw || code == vf_lasterr(), "the error of the failing call is thrown");
    vf_assert(threw || vf_count("pthread_spin_destroy") == 1, "the lock is destroyed once");
    vf_cover("end");
}

#define INITS "pthread_mutexattr_init,pthread_mutexattr_settype,pthread_mutexattr_setprotocol,pthread_mutexattr_setpshared,pthread_mutex_init," \
    "pthread_mutexattr_destroy,pthread_condattr_init,pthread_condattr_setpshared,pthread_cond_init,pthread_condattr_destroy," \
    "pthread_rwlockattr_init,pthread_rwlockattr_setpshared,pthread_rwlock_init,pthread_rwlockattr_destroy,pthread_spin_init," \
    "pthread_mutex_destroy,pthread_cond_destroy,pthread_rwlock_destroy,pthread_spin_destroy"

// one call, one outcome
static void plain(const char *call, long object, bool threw, int code)
{
    vf_assert(vf_count(call) == 1 && vf_arg(call, 0, 0) == object, "the operation makes its own call on its own object");
    vf_assert(threw == vf_failed(call), "a failure is thrown");
    vf_assert(!threw || code == vf_lasterr(), "the error of the call is thrown");
}

static void attempt(const char *call, long object, bool threw, int code, bool got, bool again)
{
    vf_assert(vf_count(call) == 1 && vf_arg(call, 0, 0) == object, "the operation makes its own call on its own object");
    vf_assert(!threw || (vf_failed(call) && code == vf_lasterr()), "the error of the call is thrown");
    vf_assert(!threw || (code != EBUSY && !(again && code == EAGAIN)), "a lock held by another is not an error");
    vf_assert(threw || got == !vf_failed(call), "an attempt tells whether the lock was taken");
    vf_assert(threw || got || vf_lasterr() == EBUSY || (again && vf_lasterr() == EAGAIN), "an error is not taken for a lock held by another");
}

extern "C" void C25_lock()
{
    bool threw;
    int code;
    bool got = false;
    vf_ok(INITS);
    pshared_lock l;
    long o = vf_arg("pthread_mutex_init", 0, 0);
    vf_reset();
    switch (vf_pick("op", 0, 2))
    {
        case 0:
            TRY(l.lock());
            plain("pthread_mutex_lock", o, threw, code);
            break;
        case 1:
            TRY(got = l.try_lock());
            attempt("pthread_mutex_trylock", o, threw, code, got, false);
            break;
        case 2:
            vf_ok(INITS ",pthread_mutex_lock");
            l.lock();
            TRY(l.unlock());
            plain("pthread_mutex_unlock", o, threw, code);
            break;
    }
    vf_cover("end");
}

extern "C" void C25_spinops()
{
    bool threw;
    int code;
    bool got = false;
    vf_ok(INITS);
    spinlock l;
    long o = vf_arg("pthread_spin_init", 0, 0);
    vf_reset();
    switch (vf_pick("op", 0, 2))
    {
        case 0:
            TRY(l.lock());
            plain("pthread_spin_lock", o, threw, code);
            break;
        case 1:
            TRY(got = l.trylock());
            attempt("pthread_spin_trylock", o, threw, code, got, false);
            break;
        case 2:
            vf_ok(INITS ",pthread_spin_lock");
            l.lock();
            TRY(l.unlock());
            plain("pthread_spin_unlock", o, threw, code);
            break;
    }
    vf_cover("end");
}

extern "C" void C25_rwops()
{
    bool threw;
    int code;
    bool got = false;
    vf_ok(INITS);
    pshared_rwlock l;
    long o = vf_arg("pthread_rwlock_init", 0, 0);
    vf_reset();
    switch (vf_pick("op", 0, 4))
    {
        case 0:
            TRY(l.rdlock());
            plain("pthread_rwlock_rdlock", o, threw, code);
            break;
        case 1:
            TRY(l.wrlock());
            plain("pthread_rwlock_wrlock", o, threw, code);
            break;
        case 2:
            TRY(got = l.try_rdlock());
            attempt("pthread_rwlock_tryrdlock", o, threw, code, got, true);
            break;
        case 3:
            TRY(got = l.try_wrlock());
            attempt("pthread_rwlock_trywrlock", o, threw, code, got, false);
            break;
        case 4:
            vf_ok(INITS ",pthread_rwlock_rdlock,pthread_rwlock_wrlock");
            if (vf_bool("w"))
            {
                l.wrlock();
            }
            else
            {
                l.rdlock();
            }
            TRY(l.unlock());
            plain("pthread_rwlock_unlock", o, threw, code);
            break;
    }
    vf_cover("end");
}

extern "C" void C25_condops()
{
    bool threw;
    int code;
    vf_ok(INITS ",pthread_mutex_lock,pthread_mutex_unlock");
    pshared_lock l;
    pshared_cond c;
    long m = vf_arg("pthread_mutex_init", 0, 0);
    long o = vf_arg("pthread_cond_init", 0, 0);
    std::unique_lock<pshared_lock> lock(l);
    vf_reset();
    int op = vf_pick("op", 0, 2);
    if (op == 0)
    {
        TRY(c.wait(lock));
        plain("pthread_cond_wait", o, threw, code);
        vf_assert(vf_arg("pthread_cond_wait", 0, 1) == m, "waiting releases the lock that was given");
    }
    else if (op == 1)
    {
        TRY(c.notify_one());
        plain("pthread_cond_signal", o, threw, code);
    }
    else
    {
        TRY(c.notify_all());
        plain("pthread_cond_broadcast", o, threw, code);
    }
    vf_assert(vf_nheld() == 1, "the lock is held again afterwards");
    vf_cover("end");
}

// ---- threads
static void kernel()
{
    vf_kernel();
    vf_ok("*");
}

static void start(int n, void *(*f)(void *))
{
    for (int i = 0; i < n; ++i)
    {
        pthread_t t;
        pthread_create(&t, nullptr, f, nullptr);
    }
}

static void settle(int rounds = 4)
{
    for (int k = 0; k < rounds; ++k)
    {
        for (int i = 1; i <= vf_nthreads(); ++i)
        {
            if (!vf_ended(i))
            {
                vf_run(i);
            }
        }
    }
}

static int g_passed, g_done, g_flag, g_arrived, g_threw;

// ---- C25 : waiting for a condition
static pshared_lock *g_l;
static pshared_cond *g_c;
extern "C" void *waits(void *)
{
    std::unique_lock<pshared_lock> lock(*g_l);
    g_c->wait(lock, []() { return g_flag != 0; });
    vf_assert(g_flag != 0, "waiting for a condition ends only when it holds");
    vf_assert(vf_nheld() == 1, "the condition is looked at under the lock");
    ++g_passed;
    return nullptr;
}

extern "C" void C25_waiting()
{
    kernel();
    g_passed = 0;
    g_flag = 0;
    pshared_lock l;
    pshared_cond c;
    g_l = &l;
    g_c = &c;
    int n = vf_pick("waiters", 1, 2);
    vf_wait(1, 1);
    start(n, waits);
    vf_preempt(2);
    if (vf_bool("early"))
    {
        vf_run(1);
    }
    {
        std::unique_lock<pshared_lock> lock(l);
        g_flag = 1;
    }
    if (n == 1 && vf_bool("one"))
    {
        c.notify_one();
    }
    else
    {
        c.notify_all();
    }
    settle();
    for (int i = 1; i <= n; ++i)
    {
        vf_assert(vf_ended(i) == 1, "a waiter goes on once the condition holds and it is notified");
    }
    vf_assert(g_passed == n, "every waiter goes on once");
    vf_cover("end");
}

// ---- C26 : one-time fence
static pshared_one_time_fence *g_f;
extern "C" void *fenced(void *)
{
    g_f->wait();
    vf_assert(g_done == 1, "nobody passes the fence before it is opened");
    vf_assert(vf_nheld() == 0, "who passed the fence holds no lock");
    ++g_passed;
    return nullptr;
}

extern "C" void *opens(void *)
{
    g_done = 1;
    g_f->notify();
    vf_assert(vf_nheld() == 0, "who opened the fence holds no lock");
    return nullptr;
}

extern "C" void C26_fence()
{
    kernel();
    pshared_one_time_fence f;
    g_f = &f;
    g_passed = 0;
    g_done = 0;
    vf_assert(!f.ok(), "a new fence is closed");
    int n = vf_pick("waiters", 0, 2);
    vf_wait(vf_pick("spurious", 0, 1), 1);
    start(n, fenced);
    vf_preempt(2);
    int early = vf_pick("early", 0, 2);
    for (int i = 1; i <= early && i <= n; ++i)
    {
        vf_run(i);
    }
    vf_assert(g_passed == 0 && !f.ok(), "nobody passes the fence before it is opened");
    opens(nullptr);
    vf_assert(f.ok(), "an opened fence stays open");
    settle();
    for (int i = 1; i <= n; ++i)
    {
        vf_assert(vf_ended(i) == 1, "everybody passes the fence once it is open");
    }
    vf_assert(g_passed == n, "everybody passes the fence once it is open");
    f.wait();
    f.wait();
    f.notify();
    f.wait();
    vf_assert(f.ok(), "an opened fence stays open");
    vf_cover("end");
}

// two open it
extern "C" void C26_twice()
{
    kernel();
    pshared_one_time_fence f;
    g_f = &f;
    g_passed = 0;
    g_done = 0;
    start(1, fenced);
    start(2, opens);
    vf_preempt(2);
    vf_run(vf_pick("first", 1, 3));
    settle();
    for (int i = 1; i <= 3; ++i)
    {
        vf_assert(vf_ended(i) == 1, "everybody passes the fence once it is open");
    }
    vf_assert(g_passed == 1 && f.ok(), "opening a fence twice opens it");
    vf_cover("end");
}

extern "C" void C26_race()
{
    kernel();
    pshared_one_time_fence f;
    g_f = &f;
    g_done = 1;
    vf_race(1);
    vf_thread(11);
    f.notify();
    vf_thread(12);
    f.wait();
    f.ok();
    vf_thread(13);
    f.notify();
    vf_thread(0);
    vf_race(0);
    vf_cover("end");
}

// ---- C27 : barrier
static pshared_barrier *g_b;
static int g_size;
extern "C" void *arrives(void *)
{
    ++g_arrived;
    try
    {
        g_b->wait();
        vf_assert(g_arrived >= g_size, "nobody passes the barrier before all arrived");
        ++g_passed;
    }
    catch (const std::logic_error &)
    {
        ++g_threw;
    }
    vf_assert(vf_nheld() == 0, "who left the barrier holds no lock");
    return nullptr;
}

static void barrier_reset(int size)
{
    g_arrived = 0;
    g_passed = 0;
    g_threw = 0;
    g_size = size;
}

extern "C" void C27_meet()
{
    kernel();
    int n = vf_pick("count", 1, 3);
    pshared_barrier b(n);
    g_b = &b;
    barrier_reset(n);
    vf_wait(vf_pick("spurious", 0, 1), 1);
    int extra = vf_pick("extra", 0, 1);
    start(n + extra, arrives);
    vf_preempt(n == 3 ? 1 : 2);
    vf_run(vf_pick("first", 1, n));
    settle();
    for (int i = 1; i <= n + extra; ++i)
    {
        vf_assert(vf_ended(i) == 1, "everybody leaves the barrier once all arrived");
    }
    vf_assert(g_passed == n && g_threw == extra, "exactly as many as the barrier counts pass it, the others are told");
    if (extra)
    {
        vf_cover("extra");
    }
    vf_cover("end");
}

extern "C" void C27_short()
{
    kernel();
    int n = vf_pick("count", 2, 3);
    pshared_barrier b(n);
    g_b = &b;
    barrier_reset(n);
    vf_wait(2, 1);
    start(n - 1, arrives);
    settle();
    vf_assert(g_passed == 0 && g_threw == 0, "nobody passes the barrier before all arrived");
    for (int i = 1; i < n; ++i)
    {
        vf_assert(vf_ended(i) == 0, "nobody passes the barrier before all arrived");
    }
    vf_cover("end");
}

extern "C" void C27_race()
{
    kernel();
    pshared_barrier b(2);
    g_b = &b;
    barrier_reset(0);
    vf_race(1);
    start(2, arrives);
    vf_run(1);
    vf_run(2);
    vf_run(1);
    vf_race(0);
    vf_cover("end");
}

// ---- C28 : guards
static_assert(!std::is_copy_constructible<rdlockguard>::value && !std::is_copy_assignable<rdlockguard>::value, "a guard is not copied");
static_assert(!std::is_copy_constructible<wrlockguard>::value && !std::is_copy_assignable<wrlockguard>::value, "a guard is not copied");

template <typename Guard>
static void guard_spec(const char *call)
{
    vf_ok(INITS ",pthread_rwlock_rdlock,pthread_rwlock_wrlock,pthread_rwlock_unlock");
    pshared_rwlock a, b;
    vf_reset();
    int how = vf_pick("how", 0, 8);
    int locks = 1;
    {
        Guard g(a);
        vf_assert(vf_nheld() == 1 && vf_count(call) == 1, "a guard holds its lock in its mode");
        if (how == 1)
        {
            g.unlock();
            vf_assert(vf_nheld() == 0, "unlocking releases the lock");
        }
        else if (how == 2)
        {
            g.unlock();
            g.lock();
            locks = 2;
            vf_assert(vf_nheld() == 1 && vf_count(call) == 2, "locking again takes the lock in its mode");
        }
        else if (how == 3)
        {
            Guard h(std::move(g));
            vf_assert(vf_nheld() == 1, "moving keeps the lock held");
        }
        else if (how == 4)
        {
            Guard h(std::move(g));
            h.unlock();
            vf_assert(vf_nheld() == 0, "the new guard releases the lock");
        }
        else if (how == 5)
        {
            Guard h(b);
            locks = 2;
            h = std::move(g);
            vf_assert(vf_nheld() == 1, "assigning releases the old lock and keeps the new one");
        }
        else if (how == 6)
        {
            Guard h(b);
            locks = 2;
            h.unlock();
            h = std::move(g);
            vf_assert(vf_nheld() == 1, "assigning to a guard that released its lock keeps the new one");
        }
        else if (how == 7)
        {
            g.unlock();
            Guard h(std::move(g));
            vf_assert(vf_nheld() == 0, "moving a released guard takes no lock");
            h.lock();
            locks = 2;
            vf_assert(vf_nheld() == 1, "a moved guard locks again");
        }
        else if (how == 8)
        {
            Guard &r = g;
            g = std::move(r);
            vf_assert(vf_nheld() == 1, "self-assignment changes nothing");
        }
    }
    vf_assert(vf_nheld() == 0, "no lock stays held when the guards are gone");
    vf_assert(vf_count("pthread_rwlock_rdlock") + vf_count("pthread_rwlock_wrlock") == locks && vf_count(call) == locks
        && vf_count("pthread_rwlock_unlock") == locks, "every lock taken is released once, in its mode");
    vf_cover("end");
}

extern "C" void C28_read()
{
    guard_spec<rdlockguard>("pthread_rwlock_rdlock");
}

extern "C" void C28_write()
{
    guard_spec<wrlockguard>("pthread_rwlock_wrlock");
}

template <typename Guard>
static void failing(const char *call)
{
    bool threw;
    int code;
    vf_ok(INITS ",pthread_rwlock_unlock");
    pshared_rwlock a;
    vf_reset();
    TRY(Guard g(a);
        vf_cover("held");
        g.unlock();
        g.lock());
    vf_assert(threw == vf_failed(call) && (!threw || code == vf_lasterr()), "a failure to lock is thrown");
    vf_assert(vf_nheld() == 0, "no lock stays held when the guards are gone");
    vf_assert(vf_oks(call) == vf_count("pthread_rwlock_unlock"), "a lock that was not taken is not released");
    vf_cover("end");
}

extern "C" void C28_failing()
{
    if (vf_bool("write"))
    {
        failing<wrlockguard>("pthread_rwlock_wrlock");
    }
    else
    {
        failing<rdlockguard>("pthread_rwlock_rdlock");
    }
}

// readers and writers
static pshared_rwlock *g_rw;
static int g_readers, g_writers, g_max;
extern "C" void *reads(void *)
{
    rdlockguard g(*g_rw);
    ++g_readers;
    g_max = g_readers > g_max ? g_readers : g_max;
    vf_assert(g_writers == 0, "no writer while there are readers");
    sched_yield();
    vf_assert(g_writers == 0, "no writer while there are readers");
    --g_readers;
    return nullptr;
}

extern "C" void *writes(void *)
{
    wrlockguard g(*g_rw);
    ++g_writers;
    vf_assert(g_readers == 0 && g_writers == 1, "a writer is alone");
    sched_yield();
    vf_assert(g_readers == 0 && g_writers == 1, "a writer is alone");
    --g_writers;
    return nullptr;
}

extern "C" void C28_threads()
{
    kernel();
    pshared_rwlock l;
    g_rw = &l;
    g_readers = 0;
    g_writers = 0;
    g_max = 0;
    int w = vf_pick("writers", 0, 2);
    start(w, writes);
    start(2 - w, reads);
    start(1, vf_bool("third") ? writes : reads);
    vf_preempt(2);
    vf_run(vf_pick("first", 1, 3));
    settle();
    for (int i = 1; i <= 3; ++i)
    {
        vf_assert(vf_ended(i) == 1, "everybody gets the lock");
    }
    vf_cover("end");
}
