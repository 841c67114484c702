// Event loop: registration, dispatch, removal, stopping.
#include "cppev/event_loop.h"
#include <sys/epoll.h>
#include <memory>
#include "vf.h"

using namespace cppev;

static std::shared_ptr<nio> mk(const char *name)
{
    return std::make_shared<nstream>(vf_int(name, 0, 1000));
}

// what the handlers saw
static int g_calls[4];
static int g_seq[4];
static int g_order;
static const void *g_arg[4];

static void called(int i, const std::shared_ptr<nio> &iop)
{
    ++g_calls[i];
    g_seq[i] = ++g_order;
    g_arg[i] = iop.get();
    vf_assert(vf_nheld() == 0, "a handler runs while no lock of the loop is held");
}

static void clear()
{
    g_order = 0;
    for (int i = 0; i < 4; ++i)
    {
        g_calls[i] = 0;
        g_seq[i] = 0;
        g_arg[i] = nullptr;
    }
}

static int mask(fd_event e)
{
    return ((static_cast<int>(e) & 1) ? EPOLLIN : 0) | ((static_cast<int>(e) & 2) ? EPOLLOUT : 0);
}

static fd_event evn(int k)
{
    return k == 0 ? fd_event::fd_readable : k == 1 ? fd_event::fd_writable : (fd_event::fd_readable | fd_event::fd_writable);
}

static event_loop *g_loop;
static nio *g_io;
static int g_fd;

// ---- C10 : registration
// another thread polls as soon as the kernel knows the descriptor
extern "C" void i_poll()
{
    vf_events(1, 1, 0, 0);
    vf_assume(vf_evfd(0) == g_fd && (vf_evmask(0) & EPOLLIN) != 0);
    g_loop->loop_once(-1);
    vf_set("polled", 1);
}

extern "C" void C10_interleaved()
{
    vf_ok("fcntl,epoll_create,epoll_ctl,epoll_wait");
    clear();
    event_loop l;
    auto io = mk("fd");
    g_loop = &l;
    g_fd = io->fd();
    g_io = io.get();
    vf_set("owner", 0);
    fd_event_handler h = [](const std::shared_ptr<nio> &iop)
    {
        called(0, iop);
        vf_set("owner", &iop->evlp() == g_loop);
    };
    vf_on("epoll_ctl", "i_poll", 1);
    l.fd_register(io, fd_event::fd_readable, h);
    if (vf_g("polled"))
    {
        vf_assert(g_calls[0] == 1, "a handler is in place before its descriptor is activated");
        vf_assert(g_arg[0] == g_io, "the handler gets the object that was registered");
        vf_assert(vf_g("owner") == 1, "the descriptor knows its loop before it is activated");
        vf_cover("polled");
    }
    vf_cover("end");
}

extern "C" void C10_activate()
{
    vf_ok("fcntl,epoll_create");
    event_loop l;
    auto io = mk("fd");
    fd_event e = evn(vf_pick("event", 0, 2));
    bool act = vf_pick("activate", 0, 1);
    bool with = vf_pick("handler", 0, 1);
    int prio = vf_pick("prio", 0, 1);
    vf_reset();
    bool threw = false;
    try
    {
        fd_event_handler h;
        if (with)
        {
            h = [](const std::shared_ptr<nio> &) {};
        }
        l.fd_register(io, e, h, act, prio ? priority::p3 : priority::p0);
    }
    catch (const std::system_error &x)
    {
        threw = true;
        vf_assert(vf_failed("epoll_ctl") && x.code().value() == vf_err("epoll_ctl", -1), "a failed activation is thrown with its error");
        vf_cover("threw");
    }
    vf_assert(threw == vf_failed("epoll_ctl"), "a failed activation is thrown with its error");
    vf_assert(vf_count("epoll_ctl") == (act ? 1 : 0), "the kernel is told exactly when activation is asked for");
    if (act)
    {
        vf_assert(vf_arg("epoll_ctl", -1, 0) == l.ev_fd() && vf_arg("epoll_ctl", -1, 1) == EPOLL_CTL_ADD && vf_arg("epoll_ctl", -1, 2) == io->fd(),
            "activation adds the descriptor to the loop's poller");
        vf_assert((vf_val("epoll_ctl", -1, 0) & (EPOLLIN | EPOLLOUT)) == mask(e) && vf_val("epoll_ctl", -1, 1) == io->fd(),
            "activation asks for the requested events of the descriptor");
        vf_assert((vf_val("epoll_ctl", -1, 0) & (EPOLLET | EPOLLONESHOT)) == 0,
            "the descriptor is reported as long as it is ready");
    }
    vf_assert(&io->evlp() == &l, "the descriptor knows its loop");
    vf_assert(vf_nheld() == 0, "no lock stays held");
    vf_cover("end");
}

extern "C" void C10_loads()
{
    vf_ok("*");
    event_loop l;
    auto a = mk("fd1"), b = mk("fd2");
    vf_assume(a->fd() != b->fd());
    vf_assert(l.ev_loads() == 0, "a new loop has no handlers");
    l.fd_register(a, fd_event::fd_readable, [](const std::shared_ptr<nio> &) {}, vf_pick("act", 0, 1));
    vf_assert(l.ev_loads() == 1, "each registered handler counts");
    l.fd_register(b, fd_event::fd_writable, [](const std::shared_ptr<nio> &) {});
    vf_assert(l.ev_loads() == 2, "each registered handler counts");
    l.fd_remove(a, true, vf_pick("deact", 0, 1));
    vf_assert(l.ev_loads() == 1, "a removed handler no longer counts");
    vf_cover("end");
}

extern "C" void C10_ctor()
{
    int x = 0, y = 0;
    bool threw = false;
    try
    {
        event_loop l(&x, &y);
        vf_assert(l.data() == &x && l.back() == &y, "the loop keeps what its user attached");
        vf_assert(l.ev_fd() == vf_ret("epoll_create", -1), "the loop polls its own descriptor");
        vf_cover("made");
    }
    catch (const std::system_error &e)
    {
        threw = true;
        vf_assert(e.code().value() == vf_err("epoll_create", -1), "failing to create the poller is thrown with its error");
        vf_cover("threw");
    }
    vf_assert(threw == vf_failed("epoll_create"), "failing to create the poller is thrown with its error");
    vf_assert(threw || vf_closes(vf_ret("epoll_create", -1)) == 1, "the poller is closed with the loop");
}

// ---- C11 : dispatch
static void dispatch(int xa, int xb)
{
    vf_ok("*");
    clear();
    event_loop l;
    auto a = mk("fd1"), b = mk("fd2");
    vf_assume(a->fd() != b->fd());
    fd_event ea = evn(xa), eb = evn(xb);
    bool pa = vf_pick("pa", 0, 1), pb = !pa;
    l.fd_register(a, ea, [](const std::shared_ptr<nio> &i) { called(0, i); }, true, pa ? priority::p1 : priority::p4);
    l.fd_register(b, eb, [](const std::shared_ptr<nio> &i) { called(1, i); }, true, pb ? priority::p1 : priority::p4);
    vf_events(0, 2, 0, 0);
    vf_reset();
    l.loop_once(vf_int("timeout", -1, 1000));
    int n = vf_g("nready");
    int wa = 0, wb = 0;
    for (int i = 0; i < n; ++i)
    {
        if (vf_evfd(i) == a->fd() && (vf_evmask(i) & mask(ea)))
        {
            ++wa;
        }
        if (vf_evfd(i) == b->fd() && (vf_evmask(i) & mask(eb)))
        {
            ++wb;
        }
    }
    vf_assert(vf_count("epoll_wait") == 1 && vf_arg("epoll_wait", -1, 0) == l.ev_fd(), "one round polls its own poller once");
    vf_assert(vf_arg("epoll_wait", -1, 3) == vf_int("timeout", -1, 1000), "the poll waits as long as asked");
    vf_assert(g_calls[0] == wa, "a handler runs once for each report of its descriptor and event, and never otherwise");
    vf_assert(g_calls[1] == wb, "a handler runs once for each report of its descriptor and event, and never otherwise");
    if (g_calls[0])
    {
        vf_assert(g_arg[0] == a.get(), "a handler gets the object that was registered");
        vf_cover("a");
    }
    if (g_calls[1])
    {
        vf_assert(g_arg[1] == b.get(), "a handler gets the object that was registered");
    }
    if (g_calls[0] == 1 && g_calls[1] == 1 && pa != pb)
    {
        vf_assert((g_seq[0] < g_seq[1]) == (pa > pb), "the handler of higher priority runs first");
        vf_cover("both");
    }
    vf_cover("end");
}

extern "C" void C11_dispatch_rr() { dispatch(0, 0); }
extern "C" void C11_dispatch_rw() { dispatch(0, 1); }
extern "C" void C11_dispatch_wr() { dispatch(1, 0); }

// a handler that throws has run: it is not run again
extern "C" void C11_throws()
{
    vf_ok("*");
    clear();
    event_loop l;
    auto a = mk("fd1");
    l.fd_register(a, fd_event::fd_readable, [](const std::shared_ptr<nio> &i) { called(0, i); throw 1; }, true, priority::p0);
    vf_events(1, 1, 0, 0);
    vf_assume(vf_evfd(0) == a->fd() && (vf_evmask(0) & EPOLLIN) != 0);
    bool threw = false;
    try
    {
        l.loop_once(5);
    }
    catch (int)
    {
        threw = true;
    }
    vf_assert(threw && g_calls[0] == 1, "an exception of a handler reaches the caller of the loop");
    vf_assert(vf_nheld() == 0, "no lock stays held");
    vf_events(0, 0, 0, 0);
    l.loop_once(5);
    vf_assert(g_calls[0] == 1, "a handler runs once for each report, also if it throws");
    vf_cover("end");
}

// readable and writable handlers of one descriptor
extern "C" void C11_samefd()
{
    vf_ok("*");
    clear();
    event_loop l;
    auto a = mk("fd1");
    int pa = vf_pick("pa", 0, 1), pb = vf_pick("pb", 0, 1);
    bool first = vf_pick("first", 0, 1);
    for (int i = 0; i < 2; ++i)
    {
        if ((i == 0) == first)
        {
            l.fd_register(a, fd_event::fd_readable, [](const std::shared_ptr<nio> &i) { called(0, i); }, true, pa ? priority::p0 : priority::p2);
        }
        else
        {
            l.fd_register(a, fd_event::fd_writable, [](const std::shared_ptr<nio> &i) { called(1, i); }, false, pb ? priority::p0 : priority::p2);
        }
    }
    vf_events(1, 1, 0, 0);
    vf_assume(vf_evfd(0) == a->fd());
    l.loop_once(5);
    bool r = vf_evmask(0) & EPOLLIN, w = vf_evmask(0) & EPOLLOUT;
    vf_assert(g_calls[0] == (r ? 1 : 0), "the readable handler runs exactly when the descriptor is readable");
    vf_assert(g_calls[1] == (w ? 1 : 0), "the writable handler runs exactly when the descriptor is writable");
    if (r && w && pa != pb)
    {
        vf_assert((g_seq[0] < g_seq[1]) == (pa > pb), "the handler of higher priority runs first");
        vf_cover("both");
    }
    vf_cover("end");
}

// three handlers, three distinct priorities, all ready at once
extern "C" void C11_order()
{
    vf_ok("*");
    clear();
    event_loop l;
    std::shared_ptr<nio> io[3] = { mk("fd1"), mk("fd2"), mk("fd3") };
    vf_assume(io[0]->fd() < io[1]->fd() && io[1]->fd() < io[2]->fd());
    int p[3];
    p[0] = vf_pick("p0", 0, 2);
    p[1] = vf_pick("p1", 0, 2);
    p[2] = vf_pick("p2", 0, 2);
    static const priority pr[3] = { priority::p6, priority::p3, priority::p0 };
    l.fd_register(io[0], fd_event::fd_readable, [](const std::shared_ptr<nio> &i) { called(0, i); }, true, pr[p[0]]);
    l.fd_register(io[1], fd_event::fd_readable, [](const std::shared_ptr<nio> &i) { called(1, i); }, true, pr[p[1]]);
    l.fd_register(io[2], fd_event::fd_readable, [](const std::shared_ptr<nio> &i) { called(2, i); }, true, pr[p[2]]);
    vf_events(3, 3, 0, 0);
    for (int i = 0; i < 3; ++i)
    {
        vf_assume(vf_evfd(i) == io[i]->fd() && vf_evmask(i) == EPOLLIN);
    }
    l.loop_once();
    for (int i = 0; i < 3; ++i)
    {
        vf_assert(g_calls[i] == 1 && g_arg[i] == io[i].get(), "each ready handler runs once with its own object");
        for (int j = 0; j < 3; ++j)
        {
            vf_assert(p[i] <= p[j] || g_seq[i] < g_seq[j], "the handler of higher priority runs first");
        }
    }
    vf_cover("end");
}

// a handler may register and remove descriptors
static std::shared_ptr<nio> *g_other;

extern "C" void C11_reentrant()
{
    vf_ok("*");
    clear();
    event_loop l;
    auto a = mk("fd1"), b = mk("fd2");
    vf_assume(a->fd() != b->fd());
    g_other = &b;
    l.fd_register(a, fd_event::fd_readable, [](const std::shared_ptr<nio> &i)
    {
        called(0, i);
        i->evlp().fd_remove(i);
        i->evlp().fd_register(*g_other, fd_event::fd_readable, [](const std::shared_ptr<nio> &j) { called(1, j); });
    });
    vf_events(1, 1, 1, 1);
    vf_assume(vf_evfd(0) == a->fd() && vf_evmask(0) == EPOLLIN && vf_evfd(1) == b->fd() && vf_evmask(1) == EPOLLIN);
    l.loop_once();
    vf_assert(g_calls[0] == 1 && g_calls[1] == 0, "a handler registered during dispatch waits for its own event");
    l.loop_once();
    vf_assert(g_calls[0] == 1 && g_calls[1] == 1, "a handler registered during dispatch is dispatched later");
    vf_cover("end");
}

extern "C" void C11_poll_error()
{
    vf_ok("fcntl,epoll_create,epoll_ctl");
    clear();
    event_loop l;
    auto a = mk("fd1");
    l.fd_register(a, fd_event::fd_readable, [](const std::shared_ptr<nio> &i) { called(0, i); });
    vf_only("epoll_wait", "fail");
    bool threw = false;
    try
    {
        l.loop_once();
    }
    catch (const std::system_error &e)
    {
        threw = true;
        vf_assert(e.code().value() == vf_err("epoll_wait", -1), "a failed poll is thrown with its error");
        vf_cover("threw");
    }
    vf_assert(threw == (vf_err("epoll_wait", -1) != EINTR), "only an interrupted poll is not an error");
    vf_assert(g_calls[0] == 0, "nothing is dispatched when the poll failed");
    if (!threw)
    {
        vf_cover("interrupted");
    }
}

// ---- C12 : removal and thread safety
extern "C" void C12_remove()
{
    vf_ok("fcntl,epoll_create,epoll_wait");
    clear();
    event_loop l;
    auto a = mk("fd1"), b = mk("fd2");
    vf_assume(a->fd() != b->fd());
    vf_ok("fcntl,epoll_create,epoll_wait,epoll_ctl");
    l.fd_register(a, fd_event::fd_readable, [](const std::shared_ptr<nio> &i) { called(0, i); });
    l.fd_register(a, fd_event::fd_writable, [](const std::shared_ptr<nio> &i) { called(2, i); }, false);
    l.fd_register(b, fd_event::fd_readable, [](const std::shared_ptr<nio> &i) { called(1, i); });
    vf_ok("fcntl,epoll_create,epoll_wait");
    bool clean = vf_pick("clean", 0, 1), deact = vf_pick("deactivate", 0, 1);
    vf_reset();
    bool threw = false;
    try
    {
        l.fd_remove(a, clean, deact);
    }
    catch (const std::system_error &e)
    {
        threw = true;
        vf_assert(e.code().value() == vf_err("epoll_ctl", -1), "a failed removal is thrown with its error");
        vf_cover("threw");
    }
    vf_assert(threw == vf_failed("epoll_ctl"), "a failed removal is thrown with its error");
    vf_assert(vf_count("epoll_ctl") == (deact ? 1 : 0), "the kernel is told exactly when deactivation is asked for");
    if (deact)
    {
        vf_assert(vf_arg("epoll_ctl", -1, 0) == l.ev_fd() && vf_arg("epoll_ctl", -1, 1) == EPOLL_CTL_DEL && vf_arg("epoll_ctl", -1, 2) == a->fd(),
            "deactivation removes the descriptor from the loop's poller");
    }
    vf_assert(vf_nheld() == 0, "no lock stays held");
    if (threw)
    {
        return;
    }
    vf_events(2, 2, 0, 0);
    vf_assume(vf_evfd(0) == a->fd() && vf_evmask(0) == (EPOLLIN | EPOLLOUT));
    vf_assume(vf_evfd(1) == b->fd() && vf_evmask(1) == EPOLLIN);
    l.loop_once();
    vf_assert(g_calls[0] == (clean ? 0 : 1) && g_calls[2] == (clean ? 0 : 1), "a removed descriptor is no longer dispatched, a merely deactivated one keeps its handlers");
    vf_assert(g_calls[1] == 1, "removing one descriptor leaves the others registered");
    vf_cover("end");
}

// register, remove, dispatch and stop from two threads
static std::shared_ptr<nio> *g_b;

extern "C" void C12_race()
{
    vf_ok("*");
    clear();
    event_loop l;
    auto a = mk("fd1"), b = mk("fd2");
    vf_assume(a->fd() != b->fd());
    l.fd_register(a, fd_event::fd_readable, [](const std::shared_ptr<nio> &) {});
    int w = vf_pick("what", 0, 3);
    vf_race(1);
    vf_thread(1);
    vf_events(1, 1, 0, 0);
    l.loop_once();
    vf_thread(2);
    switch (w)
    {
    case 0: l.fd_register(b, fd_event::fd_readable, [](const std::shared_ptr<nio> &) {}); break;
    case 1: l.fd_register(b, fd_event::fd_writable, [](const std::shared_ptr<nio> &) {}, false); break;
    case 2: l.fd_remove(a); break;
    default: l.fd_remove(a, true, false); break;
    }
    vf_race(0);
    vf_thread(0);
    vf_cover("end");
}

// ---- C13 : stopping
extern "C" void i_loop_forever()
{
    // the wake-up is reported once; a loop that polls again would block
    vf_events(1, 1, 0, 0);
    vf_assume(vf_evfd(0) == vf_arg("epoll_ctl", -1, 2));
    g_loop->loop_forever(-1);
    vf_set("left", 1);
    vf_assert(vf_count("epoll_wait") <= 1, "a stopped loop does not poll again");
}

extern "C" void C13_stop_interleaved()
{
    vf_ok("*");
    event_loop l;
    g_loop = &l;
    vf_reset();
    vf_on("epoll_ctl", "i_loop_forever", 1);
    l.stop_loop_forever();
    if (vf_g("left"))
    {
        vf_cover("left");
    }
    vf_cover("end");
}

extern "C" void C13_wakes()
{
    vf_ok("*");
    event_loop l;
    vf_reset();
    l.stop_loop_forever();
    vf_assert(vf_count("epoll_ctl") >= 1 && vf_arg("epoll_ctl", 0, 1) == EPOLL_CTL_ADD && vf_arg("epoll_ctl", 0, 0) == l.ev_fd(), "stopping wakes a loop that waits in the poller");
    vf_assert(vf_arg("epoll_ctl", 0, 2) == vf_piped(-1, 0), "stopping wakes a loop that waits in the poller");
    vf_assert((vf_val("epoll_ctl", 0, 0) & EPOLLIN) != 0, "stopping wakes a loop that waits in the poller");
    vf_assert(vf_count("write") > 0 || vf_closes(vf_piped(-1, 1)) > 0, "the wake-up descriptor is ready at once");
    vf_reset();
    l.loop_forever(-1);
    vf_assert(vf_count("epoll_wait") == 0, "a stopped loop does not poll again");
    vf_cover("end");
}

extern "C" void C13_runs()
{
    vf_ok("*");
    clear();
    event_loop l;
    g_loop = &l;
    auto a = mk("fd1");
    l.fd_register(a, fd_event::fd_readable, [](const std::shared_ptr<nio> &i)
    {
        called(0, i);
        g_loop->stop_loop_forever();
    });
    vf_reset();
    vf_events(0, 1, 1, 1);
    vf_assume(vf_evfd(0) == a->fd() && vf_evmask(0) == EPOLLIN);
    l.loop_forever(vf_int("timeout", -1, 100));
    vf_assert(g_calls[0] == 1, "the loop goes on until it is stopped");
    vf_assert(vf_arg("epoll_wait", -1, 3) == vf_int("timeout", -1, 100), "the poll waits as long as asked");
    vf_cover("end");
}

extern "C" void C13_race()
{
    vf_ok("*");
    event_loop l;
    vf_race(1);
    vf_thread(2);
    l.stop_loop_forever();
    vf_thread(1);
    l.loop_forever(1);
    vf_race(0);
    vf_thread(0);
    vf_cover("end");
}
