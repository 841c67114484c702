// Threads: task queue, runnable, thread pool, logger, scheduler.
#include "cppev/thread_pool.h"
#include "cppev/runnable.h"
#include "cppev/async_logger.h"
#include "cppev/scheduler.h"
#include <errno.h>
#include <signal.h>
#include <semaphore.h>
#include "vf.h"

using namespace cppev;

static void kernel()
{
    vf_kernel();
    vf_ok("*");
}

// run every thread until nothing moves any more
static void settle(int rounds = 6)
{
    for (int k = 0; k < rounds; ++k)
    {
        for (int i = 1; i <= vf_nthreads(); ++i)
        {
            if (!vf_ended(i))
            {
                vf_run(i);
            }
        }
    }
}

static void all_ended(int n)
{
    for (int i = 1; i <= n; ++i)
    {
        vf_assert(vf_ended(i) == 1, "no worker outlives stopping");
    }
}

// ---- C19 : task queue
static int g_ran[4], g_seq[4], g_ord;
static thread_pool_task_queue *g_q;

static void clear()
{
    for (int i = 0; i < 4; ++i)
    {
        g_ran[i] = 0;
        g_seq[i] = 0;
    }
    g_ord = 0;
}

static void ran(int i)
{
    vf_assert(vf_nheld() == 0, "a task runs while no lock of the queue is held");
    vf_assert(vf_tid() != 0, "a task runs in a worker");
    ++g_ran[i];
    g_seq[i] = ++g_ord;
}

static thread_pool_task_handler task(int i)
{
    return [i]() { ran(i); };
}

static void once(int t)
{
    for (int i = 0; i < t; ++i)
    {
        vf_assert(g_ran[i] == 1, "every task added before stopping runs exactly once");
    }
}

extern "C" void C19_single()
{
    kernel();
    clear();
    int n;
    {
        thread_pool_task_queue q(1);
        int t = vf_pick("tasks", 0, 3);
        int early = vf_pick("early", 0, 1);
        if (!early)
        {
            q.run();
            vf_run(1);
        }
        int form = vf_pick("form", 0, 2);
        std::vector<thread_pool_task_handler> batch;
        for (int i = 0; i < t; ++i)
        {
            const thread_pool_task_handler h = task(i);
            if (form == 0) q.add_task(task(i));
            if (form == 1) q.add_task(h);
            if (form == 2) batch.push_back(h);
        }
        if (form == 2)
        {
            q.add_task(batch);
        }
        if (early)
        {
            q.run();
        }
        n = vf_nthreads();
        vf_assert(n == 1, "one thread per worker");
        if (vf_bool("idle"))
        {
            vf_run(1);
            once(t);
        }
        q.stop();
        all_ended(n);
        once(t);
        for (int i = 1; i < t; ++i)
        {
            vf_assert(g_seq[i - 1] < g_seq[i], "one worker runs the tasks in the order they were added");
        }
    }
    vf_cover("end");
}

extern "C" void C19_interleaved()
{
    kernel();
    clear();
    {
        thread_pool_task_queue q(2);
        q.run();
        int t = vf_pick("tasks", 1, 2);
        vf_preempt(2);
        for (int i = 0; i < t; ++i)
        {
            const thread_pool_task_handler h = task(i);
            q.add_task(h);
        }
        q.stop();
        all_ended(2);
        once(t);
    }
    vf_cover("end");
}

extern "C" void C19_batch()
{
    kernel();
    clear();
    {
        thread_pool_task_queue q(2);
        q.run();
        settle(1);
        int t = vf_pick("tasks", 0, 3);
        std::vector<thread_pool_task_handler> v;
        for (int i = 0; i < t; ++i)
        {
            v.push_back(task(i));
        }
        vf_preempt(1);
        q.add_task(v);
        settle(2);
        once(t);
        vf_preempt(1);
        q.stop();
        all_ended(2);
        once(t);
    }
    vf_cover("end");
}

// a task that waits for another one: as many run at a time as there are workers
static std::mutex g_m;
static std::condition_variable g_c;
static int g_flag;

extern "C" void C19_parallel()
{
    kernel();
    clear();
    g_flag = 0;
    {
        thread_pool_task_queue q(2);
        q.run();
        if (vf_bool("idle"))
        {
            settle(1);
        }
        auto waits = []() {
            std::unique_lock<std::mutex> lock(g_m);
            while (!g_flag)
            {
                g_c.wait(lock);
            }
            lock.unlock();
            ran(0);
        };
        auto signals = []() {
            {
                std::unique_lock<std::mutex> lock(g_m);
                g_flag = 1;
                g_c.notify_one();
            }
            ran(1);
        };
        if (vf_bool("batch"))
        {
            q.add_task(std::vector<thread_pool_task_handler>{waits, signals});
        }
        else
        {
            q.add_task(waits);
            q.add_task(signals);
        }
        if (vf_bool("wait"))
        {
            settle(3);
            once(2);
        }
        q.stop();
        all_ended(2);
        once(2);
    }
    vf_cover("end");
}

// a task adds a task; adding wakes a waiting worker without stopping
extern "C" void C19_nested()
{
    kernel();
    clear();
    {
        thread_pool_task_queue q(1);
        g_q = &q;
        q.run();
        vf_run(1);
        vf_preempt(1);
        q.add_task([]() {
            ran(0);
            g_q->add_task(task(1));
            g_q->add_task(std::vector<thread_pool_task_handler>{task(2)});
        });
        settle(3);
        once(3);
        vf_assert(g_seq[0] < g_seq[1] && g_seq[1] < g_seq[2], "one worker runs the tasks in the order they were added");
        q.stop();
        all_ended(1);
        once(3);
    }
    vf_cover("end");
}

// two threads add at the same time
extern "C" void *add_a(void *) { g_q->add_task(task(0)); return nullptr; }
extern "C" void *add_b(void *) { const thread_pool_task_handler h = task(1); g_q->add_task(h); return nullptr; }

extern "C" void C19_race()
{
    kernel();
    clear();
    {
        thread_pool_task_queue q(2);
        g_q = &q;
        q.run();
        int order = vf_pick("order", 0, 2);
        vf_race(1);
        if (order == 1)
        {
            settle(1);
        }
        vf_thread(11);
        add_a(nullptr);
        vf_thread(12);
        add_b(nullptr);
        vf_thread(0);
        if (order == 2)
        {
            settle(1);
        }
        q.stop();
        vf_race(0);
        once(2);
    }
    vf_cover("end");
}

// ---- C20 : threads
static int g_impl, g_tid, g_state, g_type;
struct unit : public runnable
{
    int arg;
    unit() : arg(0) {}
    explicit unit(int a) : arg(a) {}
    void run_impl() override
    {
        ++g_impl;
        g_tid = vf_tid();
        vf_assert(vf_arg("pthread_setcancelstate", -1, 0) == PTHREAD_CANCEL_ENABLE && vf_arg("pthread_setcanceltype", -1, 0) == PTHREAD_CANCEL_DEFERRED,
            "a thread can be cancelled at its cancellation points");
    }
};

extern "C" void C20_run()
{
    kernel();
    g_impl = 0;
    g_tid = 0;
    {
        unit u;
        u.run();
        vf_assert(vf_nthreads() == 1, "running starts one thread");
        vf_assert(g_impl == 0, "the body does not run in the caller");
        int how = vf_pick("how", 0, 2);
        if (how == 0)
        {
            u.join();
            vf_assert(vf_ended(1) == 1, "joining waits for the end of the thread");
            vf_assert(g_impl == 1 && g_tid == 1, "the body runs once in the new thread");
            vf_assert(u.wait_for(std::chrono::milliseconds(1)), "an ended thread is reported finished");
        }
        if (how == 1)
        {
            u.detach();
            vf_assert(vf_count("pthread_detach") == 1, "detaching detaches the thread");
            vf_run(1);
        }
        if (how == 2)
        {
            vf_assert(!u.wait_for(std::chrono::milliseconds(1)), "a thread that goes on is not reported finished");
            vf_run(1);
            vf_assert(u.wait_for(std::chrono::milliseconds(1)), "an ended thread is reported finished");
            u.join();
        }
        vf_assert(g_impl == 1, "the body runs once in the new thread");
    }
    vf_cover("end");
}

extern "C" void C20_errors()
{
    vf_kernel();
    vf_ok("pthread_setcancelstate,pthread_setcanceltype");
    unit u;
    int err = 0;
    bool thrown = false;
    int op = vf_pick("op", 0, 2);
    const char *call[] = {"pthread_create", "pthread_join", "pthread_detach"};
    if (op > 0)
    {
        vf_only("pthread_create", "ok");
        u.run();
        vf_run(1);
    }
    try
    {
        if (op == 0) u.run();
        if (op == 1) u.join();
        if (op == 2) u.detach();
    }
    catch (const std::system_error &e)
    {
        thrown = true;
        err = e.code().value();
    }
    vf_assert(vf_count(call[op]) == 1, "the operation makes its own call");
    if (thrown)
    {
        vf_assert(vf_ret(call[op], -1) != 0 && err == vf_ret(call[op], -1), "the error of the call is thrown");
        vf_cover("thrown");
    }
    else
    {
        vf_assert(vf_ret(call[op], -1) == 0, "a failure is thrown");
        vf_cover("fine");
    }
}

extern "C" void C20_signal()
{
    kernel();
    unit u;
    u.run();
    int sig = vf_int("sig", 1, 64);
    u.send_signal(sig);
    u.join();
    vf_assert(vf_count("pthread_kill") == 1 && vf_arg("pthread_kill", -1, 1) == sig && vf_arg("pthread_kill", -1, 0) == vf_arg("pthread_join", -1, 0),
        "the signal goes to the thread");
    vf_cover("end");
}

extern "C" void C20_cancel()
{
    vf_kernel();
    vf_ok("pthread_create,pthread_join,pthread_setcancelstate,pthread_setcanceltype");
    unit u;
    u.run();
    bool r = u.cancel();
    vf_assert(vf_count("pthread_cancel") == 1, "cancelling cancels the thread");
    vf_assert(r == (vf_ret("pthread_cancel", -1) == 0), "cancelling reports whether the request was made");
    u.join();
    vf_assert(vf_arg("pthread_cancel", -1, 0) == vf_arg("pthread_join", -1, 0), "cancelling cancels the thread");
    vf_cover("end");
}

extern "C" void C20_pool()
{
    kernel();
    g_impl = 0;
    {
        int n = vf_pick("size", 0, 3);
        thread_pool<unit, int> p(n, 7);
        vf_assert(p.size() == n, "a pool has the size asked for");
        vf_assert(vf_nthreads() == 0, "a pool starts when told to");
        for (int i = 0; i < n; ++i)
        {
            vf_assert(p[i].arg == 7, "every member is made from the arguments");
            const thread_pool<unit, int> &cp = p;
            vf_assert(&cp[i] == &p[i] && (i == 0 || &p[i] != &p[i - 1]), "a member is found by its number");
        }
        p.run();
        vf_assert(vf_nthreads() == n, "running a pool starts every member");
        int how = vf_pick("how", 0, 1);
        if (how == 1)
        {
            p.cancel();
            vf_assert(vf_count("pthread_cancel") == n, "cancelling a pool cancels every member");
        }
        p.join();
        for (int i = 1; i <= n; ++i)
        {
            vf_assert(vf_ended(i) == 1, "joining a pool waits for every member");
        }
        vf_assert(g_impl == n, "every member runs once");
    }
    vf_cover("end");
}

// the body is under way for a while
static std::mutex g_gate;
static bool g_during;
struct longer : public runnable
{
    void run_impl() override
    {
        g_during = true;
        {
            std::unique_lock<std::mutex> l(g_gate);
        }
        g_during = false;
        ++g_impl;
    }
};

extern "C" void C20_during()
{
    kernel();
    g_impl = 0;
    g_during = false;
    {
        longer u;
        {
            std::unique_lock<std::mutex> l(g_gate);
            u.run();
            vf_run(1);
            vf_assert(g_during, "the body runs in the new thread");
            vf_assert(!u.wait_for(std::chrono::milliseconds(1)), "a thread whose body goes on is not reported finished");
        }
        vf_run(1);
        vf_assert(g_impl == 1 && u.wait_for(std::chrono::milliseconds(1)), "an ended thread is reported finished");
        u.join();
    }
    vf_cover("end");
}

// a member that cannot be cancelled any more does not keep the others from being cancelled
extern "C" void C20_pool_cancel()
{
    vf_kernel();
    vf_ok("pthread_create,pthread_join,pthread_setcancelstate,pthread_setcanceltype");
    {
        int n = vf_pick("size", 1, 3);
        thread_pool<unit, int> p(n, 7);
        p.run();
        p.cancel();
        vf_assert(vf_count("pthread_cancel") == n, "cancelling a pool cancels every member");
        for (int i = 1; i < n; ++i)
        {
            vf_assert(vf_arg("pthread_cancel", i, 0) != vf_arg("pthread_cancel", i - 1, 0), "cancelling a pool cancels every member");
        }
        p.join();
    }
    vf_cover("end");
}

// a moved pool keeps its members
extern "C" void C20_move()
{
    kernel();
    g_impl = 0;
    {
        thread_pool<unit, int> p(2, 7);
        p.run();
        thread_pool<unit, int> q(std::move(p));
        vf_assert(q.size() == 2 && p.size() == 0, "moving a pool moves its members");
        q.join();
        vf_assert(g_impl == 2, "every member runs once");
        p = std::move(q);
        vf_assert(p.size() == 2, "moving a pool moves its members");
    }
    vf_cover("end");
}

// ---- C21 : logger
// what arrived at the logger's descriptor
static bool written(int fd, int at, const char *want)
{
    for (int i = 0; want[i] != 0; ++i)
    {
        if (vf_wbyte(fd, at + i) != want[i])
        {
            return false;
        }
    }
    return true;
}

extern "C" void C21_line()
{
    kernel();
    vf_plain();
    {
        async_logger l(1);
        int early = vf_bool("early");
        if (early)
        {
            vf_run(1);
        }
        l << "ab" << std::string("cd") << 5 << log::endl;
        vf_script("write", "data:all");
        if (vf_bool("wait"))
        {
            vf_run(1);
            vf_assert(vf_wcount(1) > 0, "a finished record is written without more records");
        }
    }
    const char *want = "- [INFO] [T] [LWP 70] abcd5\n";
    vf_assert(vf_wcount(1) == 28 && written(1, 0, want), "a record is written whole, once, with its header");
    vf_assert(vf_ended(1) == 1, "the writer ends with the logger");
    vf_cover("end");
}

static async_logger *g_l;
extern "C" void *log_a(void *)
{
    *g_l << "a" << "b" << log::endl;
    return nullptr;
}

// two threads log; records are whole, in either order
static bool two(int fd, const char *x, const char *y, int n)
{
    return (written(fd, 0, x) && written(fd, n, y)) || (written(fd, 0, y) && written(fd, n, x));
}

extern "C" void C21_threads()
{
    kernel();
    vf_plain();
    {
        async_logger l(2);
        g_l = &l;
        pthread_t t;
        pthread_create(&t, nullptr, log_a, nullptr);
        vf_script("write", "data:all,data:all,data:all");
        vf_preempt(2);
        l << "c" << "d" << log::endl;
        pthread_join(t, nullptr);
    }
    vf_assert(vf_wcount(2) == 2 * 26, "every record is written once");
    vf_assert(two(2, "- [ERROR] [T] [LWP 70] cd\n", "- [ERROR] [T] [LWP 72] ab\n", 26), "records of different threads do not mix");
    vf_cover("end");
}

// however the descriptor takes it
extern "C" void C21_slow()
{
    kernel();
    vf_plain();
    {
        async_logger l(1);
        l << "ab" << log::endl;
        const char *how[] = {"data:5,data:all", "data:1,fail:4,data:all", "fail:11,data:all", "data:24,fail:11,data:all", "fail:4,fail:11,data:2,data:3,data:all"};
        vf_script("write", how[vf_pick("how", 0, 4)]);
        if (vf_bool("more"))
        {
            vf_run(1);
            vf_script("write", "data:all,data:all");
            l << "ab" << log::endl;
            vf_cover("more");
        }
    }
    const char *want = "- [INFO] [T] [LWP 70] ab\n";
    vf_assert((vf_wcount(1) == 25 || vf_wcount(1) == 50) && written(1, 0, want) && (vf_wcount(1) == 25 || written(1, 25, want)),
        "short, interrupted and blocked writes lose and repeat nothing");
    vf_cover("end");
}

// a finished record is written without waiting for another one, time after time
extern "C" void C21_prompt()
{
    kernel();
    vf_plain();
    {
        async_logger l(1);
        if (vf_bool("early"))
        {
            vf_run(1);
        }
        const char *want[] = {"- [INFO] [T] [LWP 70] 0\n", "- [INFO] [T] [LWP 70] 1\n", "- [INFO] [T] [LWP 70] 2\n"};
        for (int i = 0; i < 3; ++i)
        {
            l << i << log::endl;
            vf_script("write", "data:all");
            vf_run(1);
            vf_assert(vf_wcount(1) == 24 * (i + 1) && written(1, 24 * i, want[i]), "a finished record is written without more records");
        }
    }
    vf_assert(vf_wcount(1) == 72, "every record is written once");
    vf_cover("end");
}

// an error that stays does not keep the writer busy for ever
extern "C" void C21_dead()
{
    kernel();
    vf_plain();
    {
        async_logger l(1);
        l << "ab" << log::endl;
        vf_script("write", vf_bool("io") ? "fail:5,fail:5,fail:5,fail:5,fail:5,fail:5,fail:5,fail:5,data:all" : "fail:32,fail:32,fail:32,fail:32,fail:32,fail:32,fail:32,fail:32,data:all");
        vf_run(1);
        vf_assert(vf_count("write") < 8, "a descriptor that always fails does not keep the writer trying for ever");
        vf_script("write", "data:all,data:all,data:all");
    }
    vf_assert(vf_ended(1) == 1, "the writer ends with the logger");
    vf_cover("end");
}

// a descriptor that fails does not stop the program
extern "C" void C21_broken()
{
    kernel();
    vf_plain();
    {
        async_logger l(1);
        l << "ab" << log::endl;
        vf_script("write", vf_bool("io") ? "fail:5" : "fail:32");
        vf_run(1);
        l << "cd" << log::endl;
        vf_script("write", "data:all");
    }
    vf_assert(vf_wcount(1) == 25 && written(1, 0, "- [INFO] [T] [LWP 70] cd\n"), "records after a failed write are written");
    vf_cover("end");
}

extern "C" void C21_many()
{
    kernel();
    vf_plain();
    int n = vf_pick("records", 0, 3);
    {
        async_logger l(1);
        vf_script("write", "data:all,data:all,data:all");
        vf_preempt(2);
        for (int i = 0; i < n; ++i)
        {
            l << i << log::endl;
        }
    }
    vf_assert(vf_wcount(1) == 24 * n, "every record is written once, also those logged just before the logger is destroyed");
    for (int i = 0; i < n; ++i)
    {
        const char *want[] = {"- [INFO] [T] [LWP 70] 0\n", "- [INFO] [T] [LWP 70] 1\n", "- [INFO] [T] [LWP 70] 2\n"};
        vf_assert(written(1, 24 * i, want[i]), "one thread's records are written in order");
    }
    vf_assert(vf_ended(1) == 1, "the writer ends with the logger");
    vf_cover("end");
}

extern "C" void C21_text()
{
    kernel();
    vf_plain();
    {
        async_logger l(1);
        l << std::string("x\0y", 3) << std::string() << "" << -3 << 70000000000L << log::endl;
        vf_script("write", "data:all");
    }
    vf_assert(vf_wcount(1) == 39 && written(1, 0, "- [INFO] [T] [LWP 70] x") && vf_wbyte(1, 23) == 0 && written(1, 24, "y-370000000000\n"),
        "what is logged is written as it is");
    vf_cover("end");
}

extern "C" void C21_off()
{
    kernel();
    vf_plain();
    {
        async_logger l(-1);
        vf_assert(vf_nthreads() == 0, "a terminator writes nothing");
    }
    vf_assert(vf_count("write") == 0, "a terminator writes nothing");
    vf_cover("end");
}

// producers and the writer in turns: what they share is ordered by the lock
extern "C" void C21_share()
{
    kernel();
    vf_plain();
    {
        async_logger l(1);
        g_l = &l;
        pthread_t t;
        vf_script("write", "data:all,data:all,data:all,data:all");
        vf_race(2);
        vf_preempt(1);
        pthread_create(&t, nullptr, log_a, nullptr);
        if (vf_bool("own"))
        {
            log_a(nullptr);
        }
        vf_run(vf_pick("first", 1, 2));
        vf_run(vf_pick("second", 1, 2));
        pthread_join(t, nullptr);
        vf_race(0);
    }
    vf_cover("end");
}

extern "C" void C21_race()
{
    kernel();
    vf_plain();
    {
        async_logger l(1);
        g_l = &l;
        vf_script("write", "data:all,data:all");
        vf_race(2);
        int order = vf_pick("order", 0, 2);
        if (order == 1)
        {
            vf_run(1);
        }
        vf_thread(11);
        log_a(nullptr);
        vf_thread(12);
        log_a(nullptr);
        vf_thread(0);
        if (order == 2)
        {
            vf_run(1);
        }
        vf_race(0);
        vf_cover("end");
    }
}

// ---- C22 : scheduler
// The clock belongs to the driver: it moves only while the scheduler sleeps, by what the scheduler asks for (and more if
// the driver says so), and a sleep waits for the driver to grant a tick.
static long g_now;
static long g_late;
static sem_t g_tick;
static int g_free;                  // sleeps need no grant any more
static int g_grants;
struct fclock
{
    using duration = std::chrono::nanoseconds;
    using rep = duration::rep;
    using period = duration::period;
    using time_point = std::chrono::time_point<fclock, duration>;
    static constexpr bool is_steady = true;
    static time_point now() noexcept
    {
        return time_point(duration(g_now));
    }
};

static int g_sleeps;
extern "C" int vfd_nanosleep(const struct timespec *req, struct timespec *)
{
    vf_assert(vf_nheld() == 0, "the scheduler sleeps without a lock");
    vf_assert(req->tv_sec >= 0 && req->tv_nsec >= 0, "the scheduler asks for a time to come");
    ++g_sleeps;
    if (!g_free)
    {
        sem_wait(&g_tick);
    }
    g_now += req->tv_sec * 1000000000L + req->tv_nsec + g_late;
    return 0;
}

static int g_init, g_exit, g_calls, g_nrec;
static int g_who[24];
static long g_stamp[24];
static int g_rank[24];

static void schedule_kernel(long now)
{
    kernel();
    sem_init(&g_tick, 0, 0);
    g_now = now;
    g_late = 0;
    g_free = 0;
    g_sleeps = 0;
    g_init = 0;
    g_exit = 0;
    g_nrec = 0;
}

static void fired(int who, const std::chrono::nanoseconds &t)
{
    vf_assert(vf_tid() != 0, "a timed task runs in the scheduler's own thread");
    vf_assert(vf_nheld() == 0, "a timed task runs without a lock");
    vf_assert(g_exit == 0, "no timed task runs after an exit task");
    vf_assert(t.count() <= g_now, "no timed task runs before its time");
    if (g_nrec < 24)
    {
        g_who[g_nrec] = who;
        g_stamp[g_nrec] = t.count();
    }
    ++g_nrec;
}

static void f0(const std::chrono::nanoseconds &t)
{
    fired(0, t);
}
static void f1(const std::chrono::nanoseconds &t)
{
    fired(1, t);
}
static void f2(const std::chrono::nanoseconds &t)
{
    fired(2, t);
}

static void grant(int n)
{
    for (int i = 0; i < n; ++i)
    {
        sem_post(&g_tick);
        vf_run(1);
    }
}

using sched = timed_scheduler<fclock>;
using tt = std::tuple<double, priority, timed_task_handler>;

// what a task of this interval should have been given from start to the last instant reached
static void stamps(int who, long start, long interval, int n)
{
    int k = 0;
    for (int i = 0; i < g_nrec; ++i)
    {
        if (g_who[i] == who)
        {
            vf_assert(g_stamp[i] == start + k * interval, "a timed task gets every multiple of its interval, in order");
            ++k;
        }
    }
    vf_assert(k == n, "a timed task is called once per interval");
}

// one task, for whatever instant it starts at
extern "C" void C22_single()
{
    schedule_kernel(vf_pick("now", 0, 3) * 1300000000L + 1);
    g_late = vf_bool("late") ? 250000000L : 0;
    long begin = g_now;
    bool align = vf_bool("align");
    {
        sched s(4, f0, align);
        vf_assert(vf_nthreads() == 1, "one thread serves a scheduler");
        vf_run(1);
        grant(align ? 1 : 0);
        vf_assert(g_nrec >= 1, "the first call comes at the start");
        grant(3);
        if (g_late)
        {
            vf_cover("late");
        }
        g_free = 1;
        sem_post(&g_tick);
    }
    int n = g_nrec;
    long start = align ? (begin / 1000000000L + 1) * 1000000000L : begin;
    vf_assert(n >= 4, "the task is called every interval, also when it is late");
    stamps(0, start, 250000000L, n);
    vf_assert(vf_ended(1) == 1, "the thread ends with the scheduler");
    vf_cover("end");
}

static void two_tasks(double fa, priority pa, double fb, priority pb, long ia, long ib, int ticks, int na, int nb, bool first_a)
{
    schedule_kernel(5700000000L);
    {
        sched s(std::vector<tt>{{fa, pa, f0}, {fb, pb, f1}}, {}, {}, vf_bool("align"));
        vf_run(1);
        if (g_nrec == 0)
        {
            grant(1);
        }
        grant(ticks);
        g_free = 1;
        sem_post(&g_tick);
    }
    long start = g_stamp[0];
    vf_assert(start == 5700000000L || start == 6000000000L, "the first call comes at the start");
    int ka = 0, kb = 0;
    for (int i = 0; i < g_nrec; ++i)
    {
        if (i > 0)
        {
            vf_assert(g_stamp[i] >= g_stamp[i - 1], "calls come in the order of their times");
            if (g_stamp[i] == g_stamp[i - 1])
            {
                vf_assert((g_who[i - 1] == 0) == first_a && g_who[i] != g_who[i - 1], "at one instant the task of higher priority comes first");
            }
        }
        if (g_who[i] == 0)
        {
            ++ka;
        }
        else
        {
            ++kb;
        }
    }
    vf_assert(ka == na && kb == nb, "each task is called once per interval of its own");
    stamps(0, start, ia, na);
    stamps(1, start, ib, nb);
    vf_cover("end");
}

extern "C" void C22_two()
{
    switch (vf_pick("grid", 0, 3))
    {
        case 0: two_tasks(10, priority::p0, 5, priority::p1, 100000000L, 200000000L, 4, 5, 3, true); break;
        case 1: two_tasks(10, priority::p5, 5, priority::p1, 100000000L, 200000000L, 4, 5, 3, false); break;
        case 2: two_tasks(5, priority::p3, 4, priority::p2, 200000000L, 250000000L, 9, 7, 5, false); break;
        case 3: two_tasks(0.5, priority::p1, 0.25, priority::p6, 2000000000L, 4000000000L, 3, 4, 2, true); break;
    }
}

extern "C" void C22_three()
{
    schedule_kernel(6000000000L);
    {
        sched s(std::vector<tt>{{2, priority::p4, f0}, {1, priority::p6, f1}, {2, priority::p0, f2}}, {}, {}, false);
        vf_run(1);
        grant(2);
        g_free = 1;
        sem_post(&g_tick);
    }
    int want[] = {2, 0, 1, 2, 0, 2, 0, 1};
    vf_assert(g_nrec == 8, "each task is called once per interval of its own");
    for (int i = 0; i < 8; ++i)
    {
        vf_assert(g_who[i] == want[i], "at one instant tasks come in the order of their priorities");
        vf_assert(g_stamp[i] == 6000000000L + (i < 3 ? 0 : i < 5 ? 500000000L : 1000000000L), "every call carries its time");
    }
    vf_cover("end");
}

// init and exit tasks
static void init_a()
{
    vf_assert(vf_tid() != 0 && g_init == 0 && g_nrec == 0 && g_exit == 0, "init tasks come first, in order");
    g_init = 1;
}
static void init_b()
{
    vf_assert(vf_tid() != 0 && g_init == 1 && g_nrec == 0 && g_exit == 0, "init tasks come first, in order");
    g_init = 2;
}
static void exit_a()
{
    vf_assert(vf_tid() != 0 && g_init == 2 && g_exit == 0, "exit tasks come last, in order");
    g_exit = 1;
}
static void exit_b()
{
    vf_assert(vf_tid() != 0 && g_exit == 1, "exit tasks come last, in order");
    g_exit = 2;
}

extern "C" void C22_edges()
{
    schedule_kernel(5700000000L);
    int ticks = vf_pick("ticks", -1, 3);
    {
        sched s(std::vector<tt>{{1, priority::p0, f0}}, {init_a, init_b}, {exit_a, exit_b}, vf_bool("align"));
        vf_assert(g_init == 0 || vf_tid() == 0, "init tasks run in the scheduler's own thread");
        if (ticks >= 0)
        {
            vf_run(1);
            grant(ticks);
            vf_assert(g_init == 2 && g_exit == 0, "init tasks run when the thread starts, exit tasks when it ends");
        }
        g_free = 1;
        sem_post(&g_tick);
    }
    vf_assert(g_init == 2, "init tasks run once, also when the scheduler is stopped at once");
    vf_assert(g_exit == 2, "exit tasks run once");
    vf_assert(vf_ended(1) == 1, "the thread ends with the scheduler");
    vf_cover("end");
}

// once stopped, no further call
extern "C" void C22_stop()
{
    schedule_kernel(5700000000L);
    int ticks = vf_pick("ticks", 0, 3);
    int before;
    {
        sched s(std::vector<tt>{{1, priority::p0, f0}, {2, priority::p1, f1}}, {}, {}, false);
        vf_run(1);
        grant(ticks);
        before = g_nrec;
        g_free = 1;
        g_sleeps = 0;
        sem_post(&g_tick);
    }
    vf_assert(g_nrec == before, "no timed task is called once the scheduler is stopped while it sleeps");
    vf_assert(g_sleeps == 0, "a stopped scheduler ends after the sleep it is in");
    vf_cover("end");
}

// the stopping thread and the scheduler's own thread
extern "C" void C22_race()
{
    schedule_kernel(5700000000L);
    int ticks = vf_pick("ticks", 0, 2);
    {
        sched s(std::vector<tt>{{1, priority::p0, f0}, {2, priority::p1, f1}}, {}, {}, false);
        vf_race(2);
        vf_run(1);
        grant(ticks);
        g_free = 1;
        g_sleeps = 0;
        sem_post(&g_tick);
    }
    vf_race(0);
    vf_cover("end");
}

extern "C" void C22_none()
{
    schedule_kernel(5);
    bool threw = false;
    try
    {
        sched s(std::vector<tt>{}, {init_a}, {exit_a});
    }
    catch (const std::logic_error &)
    {
        threw = true;
    }
    vf_assert(threw && vf_nthreads() == 0, "a scheduler without timed tasks is refused");
    vf_cover("end");
}
