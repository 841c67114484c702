// Reactor: servers, clients and their connections.
#include "cppev/tcp.h"
#include <sys/epoll.h>
#include <sys/socket.h>
#include <errno.h>
#include <signal.h>
#include <arpa/inet.h>
#include "vf.h"

using namespace cppev;
using namespace cppev::reactor;

// what the user's callbacks saw
enum { ACC, CON, RD, WR, CL, NCB };
static int g_n[NCB];            // calls
static int g_seq[NCB];          // order of the latest call
static int g_order;
static int g_tid[NCB];
static int g_bytes;             // bytes offered at the latest read callback
static void *g_ext;
static const nsocktcp *g_obj[NCB];
static int g_do[NCB];           // what the callback does: 0 nothing, 1 close, 2 write two bytes, 3 write and close
static int g_fd;

static void clear()
{
    for (int i = 0; i < NCB; ++i)
    {
        g_n[i] = 0;
        g_seq[i] = 0;
        g_tid[i] = -1;
        g_do[i] = 0;
        g_obj[i] = nullptr;
    }
    g_order = 0;
    g_bytes = 0;
    g_ext = nullptr;
    g_fd = -1;
}

static void called(int i, const std::shared_ptr<nsocktcp> &c)
{
    ++g_n[i];
    g_seq[i] = ++g_order;
    g_tid[i] = vf_tid();
    g_obj[i] = c.get();
    g_fd = c->fd();
    vf_assert(vf_nheld() == 0, "callbacks run while no lock is held");
    vf_assert(vf_closes(c->fd()) == 0, "callbacks get an open connection");
    vf_assert(external_data(c) == g_ext, "callbacks reach the user's data");
    if (g_do[i] == 2 || g_do[i] == 3)
    {
        c->wbuffer().put_string("xy");
        async_write(c);
    }
    if (g_do[i] == 1 || g_do[i] == 3)
    {
        safely_close(c);
    }
}

template <typename T>
static void setup(T &s)
{
    s.set_on_read_complete([](const std::shared_ptr<nsocktcp> &c)
    {
        g_bytes = c->rbuffer().size();
        int fd = c->fd(), from = vf_rcount(fd) - g_bytes;
        for (int i = 0; i < g_bytes && i < 4; ++i)
        {
            vf_assert(c->rbuffer()[i] == vf_rbyte(fd, from + i), "the read callback sees the bytes that arrived, in order");
        }
        called(RD, c);
    });
    s.set_on_write_complete([](const std::shared_ptr<nsocktcp> &c) { called(WR, c); });
    s.set_on_closed([](const std::shared_ptr<nsocktcp> &c) { called(CL, c); });
}

static void kernel()
{
    clear();
    vf_kernel();
    vf_quietlog();
    vf_ok("*");
    vf_only("inet_pton", "ok");
    sysconfig::buffer_io_step = 1024;
}

// threads: workers first, then acceptors
struct server
{
    int ext;
    tcp_server s;
    int lfd;
    int conn;

    server(int workers = 1) : s(workers, &ext), lfd(-1), conn(-1)
    {
        g_ext = &ext;
        setup(s);
        s.set_on_accept([](const std::shared_ptr<nsocktcp> &c) { called(ACC, c); });
        s.listen(8080, family::ipv4);
        lfd = vf_ret("socket", -1);
        s.run();
    }

    // one connection arrives and reaches its worker
    void accept(int acceptor = 2)
    {
        vf_script("accept", "ok,fail:11");
        vf_ready(lfd, EPOLLIN);
        vf_run(acceptor);
        conn = vf_ret("accept", 0);
        vf_ready(conn, EPOLLIN | EPOLLOUT);
    }
};


// several outcomes of the peer's stream end
static int end_of(const char *call)
{
    int e = vf_pick("end", 0, 1);
    if (e == 0)
    {
        vf_script("read", "data:2,eof");
    }
    else
    {
        vf_script("read", "data:2,fail:104");
    }
    return e;
}

static void gone(int conn)
{
    vf_assert(vf_closes(conn) == 1, "a closed connection's descriptor is closed exactly once");
    vf_assert(vf_pollers(conn) == 0, "a closed connection is no longer watched");
}

// ---- C14 : lifecycle
extern "C" void C14_accept()
{
    kernel();
    server s;
    vf_assert(vf_nthreads() == 2, "the server runs its workers and its acceptor");
    vf_reset();
    s.accept();
    vf_assert(g_n[ACC] == 0, "connections are handled by the workers, not by the acceptor");
    vf_script("read", "data:5,fail:11");
    vf_run(1);
    vf_assert(g_n[ACC] == 1 && g_tid[ACC] == 1 && g_fd == s.conn, "each accepted connection is announced once, by a worker");
    vf_assert(g_n[RD] == 1 && g_seq[ACC] < g_seq[RD] && g_obj[RD] == g_obj[ACC], "a connection is announced before its data");
    vf_assert(g_bytes > 0, "the read callback sees what arrived");
    vf_assert(g_n[CL] == 0 && g_n[WR] == 0, "no callback without its event");
    vf_assert((vf_armed(s.conn) & EPOLLIN) != 0, "an open connection stays armed for reading");
    vf_assert(vf_closes(s.conn) == 0, "an open connection stays open");
    vf_cover("end");
}

// a socket may be set up slowly: nothing is announced before it is writable
extern "C" void C14_not_ready()
{
    kernel();
    server s;
    vf_reset();
    vf_script("accept", "ok,fail:11");
    vf_ready(s.lfd, EPOLLIN);
    vf_run(2);
    s.conn = vf_ret("accept", 0);
    vf_assert(vf_pollers(s.conn) == 1, "an accepted connection is handed to one worker");
    vf_run(1);
    vf_assert(vf_closes(s.conn) == 0, "an open connection stays open");
    vf_ready(s.conn, EPOLLOUT);
    vf_run(1);
    vf_assert(g_n[ACC] == 1 && g_tid[ACC] == 1 && g_fd == s.conn, "each accepted connection is announced once, by a worker");
    vf_ready(s.conn, EPOLLOUT);
    vf_run(1);
    vf_assert(g_n[ACC] == 1, "a connection is announced once");
    vf_assert(g_n[RD] == 0 && g_n[WR] == 0 && g_n[CL] == 0, "no callback without its event");
    vf_cover("end");
}

// data comes twice: each time only what is new
extern "C" void C14_read()
{
    kernel();
    server s;
    vf_reset();
    s.accept();
    vf_script("read", "data:2,fail:11");
    vf_run(1);
    vf_assert(g_n[RD] == 1 && g_bytes == 2, "the read callback sees what arrived");
    vf_ready(s.conn, EPOLLIN);
    vf_script("read", "data:3,fail:11");
    vf_run(1);
    vf_assert(g_n[RD] == 2 && g_bytes == 3, "the read callback sees what arrived since the last one");
    vf_assert(g_n[ACC] == 1, "a connection is announced once");
    vf_assert(g_n[CL] == 0 && g_n[WR] == 0, "no callback without its event");
    vf_assert((vf_armed(s.conn) & EPOLLIN) != 0, "an open connection stays armed for reading");
    vf_cover("end");
}

// the peer ends or resets the connection, at once or after more data
extern "C" void C14_closed()
{
    kernel();
    server s;
    vf_reset();
    s.accept();
    if (vf_bool("later"))
    {
        vf_script("read", "data:2,fail:11");
        vf_run(1);
        vf_assert(g_n[CL] == 0, "an open connection is not reported closed");
        vf_ready(s.conn, EPOLLIN);
    }
    end_of("read");
    vf_run(1);
    vf_assert(g_n[CL] == 1 && g_tid[CL] == 1 && g_fd == s.conn, "a connection the peer ended is reported closed once, by its worker");
    vf_assert(g_seq[CL] > g_seq[RD] && g_n[RD] >= 1, "the last data is delivered before the close is reported");
    vf_assert(g_n[ACC] == 1, "a connection is announced once");
    gone(s.conn);
    vf_cover("end");
}

// a user closing the connection in a callback
extern "C" void C14_user_close()
{
    kernel();
    server s;
    vf_reset();
    int at = vf_pick("callback", 0, 3);
    const int cb[] = {ACC, RD, WR, CL};
    g_do[cb[at]] = 1;
    if (at == 2)
    {
        g_do[RD] = 2;
    }
    s.accept();
    vf_script("write", "data:2");
    if (at == 3)
    {
        end_of("read");
    }
    else
    {
        vf_script("read", "data:2,fail:11");
    }
    vf_run(1);
    vf_assert(g_n[ACC] == 1, "a connection is announced once");
    vf_assert(g_n[cb[at]] == 1, "the callback runs once");
    vf_assert(at == 3 || g_n[CL] == 0, "a connection the user closed is not reported closed by the peer");
    gone(s.conn);
    vf_cover("end");
}

// the user closes, and the peer has ended the connection too
extern "C" void C14_both_close()
{
    kernel();
    server s;
    vf_reset();
    int at = vf_pick("callback", 0, 1);
    g_do[at == 0 ? ACC : RD] = 1;
    s.accept();
    end_of("read");
    vf_run(1);
    vf_assert(g_n[ACC] == 1, "a connection is announced once");
    vf_assert(g_n[CL] == 0, "a connection the user closed is not reported closed by the peer");
    vf_assert(at == 1 || g_n[RD] == 0, "no data is delivered for a connection that was closed");
    gone(s.conn);
    vf_cover("end");
}

// the user keeps the connection beyond its close
static std::shared_ptr<nsocktcp> *g_kept;
extern "C" void C14_kept()
{
    kernel();
    {
        std::shared_ptr<nsocktcp> kept;
        g_kept = &kept;
        server s;
        s.s.set_on_accept([](const std::shared_ptr<nsocktcp> &c) { called(ACC, c); *g_kept = c; });
        vf_reset();
        s.accept();
        end_of("read");
        vf_run(1);
        vf_assert(g_n[CL] == 1, "a connection the peer ended is reported closed once, by its worker");
        vf_assert(vf_pollers(s.conn) == 0, "a closed connection is no longer watched");
        bool twice = vf_bool("close");
        if (twice)
        {
            kept->close();
            gone(s.conn);
        }
        kept.reset();
        gone(s.conn);
    }
    vf_cover("end");
}

// nothing of a closed connection is left behind
static std::weak_ptr<nsocktcp> *g_weak;
extern "C" void C14_freed()
{
    kernel();
    std::weak_ptr<nsocktcp> weak;
    g_weak = &weak;
    server s;
    s.s.set_on_accept([](const std::shared_ptr<nsocktcp> &c) { *g_weak = c; called(ACC, c); });
    vf_reset();
    int how = vf_pick("how", 0, 5);
    const int cb[] = {ACC, RD, WR, CL, ACC, ACC};
    if (how < 4)
    {
        g_do[cb[how]] = 1;
    }
    if (how == 2 || how == 5)
    {
        g_do[RD] = 2;
    }
    s.accept();
    vf_script("write", how == 5 ? "fail:32" : "data:2");
    if (how == 3 || how == 4)
    {
        end_of("read");
    }
    else
    {
        vf_script("read", "data:2,fail:11");
    }
    vf_run(1);
    if (how == 5)
    {
        vf_ready(s.conn, EPOLLOUT);
        vf_script("write", "fail:32");
        vf_run(1);
    }
    vf_assert(g_n[ACC] == 1, "a connection is announced once");
    gone(s.conn);
    vf_assert(weak.expired(), "nothing refers to a closed connection any more");
    vf_cover("end");
}

// another thread gets the number of a descriptor as soon as it is closed, and registers it
static event_loop *g_loop;
static std::shared_ptr<nsocktcp> *g_new;
static int g_newcalls;
extern "C" void t_reuse()
{
    g_new->reset(new nsocktcp(vf_int("fd", 0, 1000), family::ipv4));
    g_loop->fd_register(std::static_pointer_cast<nio>(*g_new), fd_event::fd_readable,
        [](const std::shared_ptr<nio> &) { ++g_newcalls; }, true);
}

extern "C" void C14_reuse()
{
    vf_ok("*");
    event_loop l;
    g_loop = &l;
    g_newcalls = 0;
    std::shared_ptr<nsocktcp> next;
    g_new = &next;
    int fd = vf_int("fd", 0, 1000);
    auto c = std::make_shared<nsocktcp>(fd, family::ipv4);
    l.fd_register(std::static_pointer_cast<nio>(c), fd_event::fd_readable, [](const std::shared_ptr<nio> &) {}, true);
    vf_reset();
    vf_on("close", "t_reuse", 1);
    safely_close(c);
    vf_off_all();
    vf_assert(c->is_closed() && vf_count("close") == 1, "closing closes the descriptor");
    if (next)
    {
        vf_assert(l.ev_loads() == 1, "closing a connection leaves a new one of the same number alone");
        vf_cover("reused");
    }
    else
    {
        vf_assert(l.ev_loads() == 0, "nothing refers to a closed connection any more");
    }
    vf_cover("end");
}

// two connections do not mix
extern "C" void C14_two()
{
    kernel();
    server s;
    vf_reset();
    vf_script("accept", "ok,ok,fail:11");
    vf_ready(s.lfd, EPOLLIN);
    vf_run(2);
    int a = vf_ret("accept", 0), b = vf_ret("accept", 1);
    vf_ready(a, EPOLLOUT);
    vf_ready(b, EPOLLOUT);
    vf_run(1);
    vf_assert(g_n[ACC] == 2, "every accepted connection is announced");
    int x = vf_bool("which") ? a : b, y = x == a ? b : a;
    vf_ready(x, EPOLLIN);
    end_of("read");
    vf_run(1);
    vf_assert(g_n[RD] == 1 && g_fd == x && g_n[CL] == 1, "the connection that was ended is reported closed");
    gone(x);
    vf_assert(vf_closes(y) == 0 && (vf_armed(y) & EPOLLIN) != 0, "other connections stay open and watched");
    vf_ready(y, EPOLLIN);
    vf_script("read", "data:2,fail:11");
    vf_run(1);
    vf_assert(g_n[RD] == 2 && g_fd == y && g_n[CL] == 1, "other connections go on");
    vf_cover("end");
}

// ---- C15 : writing
static void sent(int fd, int n)
{
    vf_assert(vf_wcount(fd) == n, "exactly the bytes handed over are sent");
    for (int i = 0; i < n; ++i)
    {
        vf_assert(vf_wbyte(fd, i) == "xy"[i % 2], "the bytes are sent in order");
    }
}

// what was started is sent whole, completion is reported once, then the connection is readable again
extern "C" void C15_write()
{
    kernel();
    server s;
    vf_reset();
    int cb = vf_bool("reader") ? RD : ACC;
    g_do[cb] = 2;
    s.accept();
    vf_script("read", "data:2,fail:11");
    int how = vf_pick("writes", 0, 4);
    if (how == 0)
    {
        vf_script("write", "data:2");
    }
    if (how == 1)
    {
        vf_script("write", "data:1,fail:11");
    }
    if (how == 2)
    {
        vf_script("write", "fail:11");
    }
    if (how == 3)
    {
        vf_script("write", "data:1,fail:4,data:1");
    }
    if (how == 4)
    {
        vf_script("write", "fail:4,data:1,data:1");
    }
    vf_run(1);
    if (how == 1 || how == 2)
    {
        vf_assert(g_n[WR] == 0, "completion is not reported before everything was sent");
        vf_assert((vf_armed(s.conn) & EPOLLOUT) != 0, "a pending write waits for the connection to become writable");
        vf_script("write", how == 1 ? "data:1" : "data:1,fail:11");
        vf_ready(s.conn, EPOLLOUT);
        vf_run(1);
        if (how == 2)
        {
            vf_assert(g_n[WR] == 0, "completion is not reported before everything was sent");
            vf_assert((vf_armed(s.conn) & EPOLLOUT) != 0, "a pending write waits for the connection to become writable");
            vf_script("write", "data:1");
            vf_ready(s.conn, EPOLLOUT);
            vf_run(1);
        }
    }
    vf_assert(g_n[WR] == 1 && g_tid[WR] == 1, "completion is reported once, by the connection's worker");
    sent(s.conn, 2);
    vf_assert(g_n[CL] == 0 && vf_closes(s.conn) == 0, "writing does not close the connection");
    vf_assert((vf_armed(s.conn) & EPOLLIN) != 0, "after a write the connection is watched for reading again");
    int before = g_n[RD];
    vf_ready(s.conn, EPOLLIN);
    vf_script("read", "data:1,fail:11");
    g_do[RD] = 0;
    vf_run(1);
    vf_assert(g_n[RD] == before + 1 && g_bytes == 1, "after a write the connection reads on");
    vf_assert(g_n[WR] == 1, "completion is reported once, by the connection's worker");
    vf_cover("end");
}

// the connection breaks while something is still to be sent
extern "C" void C15_broken()
{
    kernel();
    server s;
    vf_reset();
    g_do[RD] = 2;
    s.accept();
    vf_script("read", "data:2,fail:11");
    int e = vf_bool("pipe") ? 32 : 104;
    int how = vf_pick("writes", 0, 2);
    if (how == 0)
    {
        vf_script("write", e == 32 ? "fail:11,data:1,fail:32" : "fail:11,data:1,fail:104");
    }
    if (how == 1)
    {
        vf_script("write", e == 32 ? "data:1,fail:11,fail:32" : "data:1,fail:11,fail:104");
    }
    if (how == 2)
    {
        vf_script("write", e == 32 ? "fail:32,fail:32" : "fail:104,fail:104");
    }
    vf_run(1);
    vf_ready(s.conn, EPOLLOUT);
    vf_run(1);
    vf_assert(g_n[WR] == 0, "a broken write is not reported complete");
    vf_assert(g_n[CL] == 1 && g_tid[CL] == 1, "a connection that broke is reported closed once");
    gone(s.conn);
    vf_cover("end");
}

// a completed write starts another one
static int g_again;
extern "C" void C15_again()
{
    kernel();
    g_again = 0;
    server s;
    s.s.set_on_write_complete([](const std::shared_ptr<nsocktcp> &c) {
        g_do[WR] = g_again == 0 ? 2 : 0;
        ++g_again;
        called(WR, c);
    });
    vf_reset();
    g_do[RD] = 2;
    s.accept();
    vf_script("read", "data:2,fail:11");
    int how = vf_pick("writes", 0, 3);
    if (how == 0)
    {
        vf_script("write", "data:2,data:2");
    }
    if (how == 1)
    {
        vf_script("write", "fail:11,data:2,data:2");
    }
    if (how == 2)
    {
        vf_script("write", "data:2,fail:11,data:2");
    }
    if (how == 3)
    {
        vf_script("write", "fail:11,data:2,data:1,fail:11,data:1");
    }
    vf_run(1);
    vf_ready(s.conn, EPOLLOUT);
    vf_run(1);
    vf_ready(s.conn, EPOLLOUT);
    vf_run(1);
    vf_assert(g_n[WR] == 2, "each write that was started is reported complete once");
    sent(s.conn, 4);
    vf_assert(g_n[CL] == 0 && vf_closes(s.conn) == 0, "writing does not close the connection");
    g_do[RD] = 0;
    int before = g_n[RD];
    vf_ready(s.conn, EPOLLIN);
    vf_script("read", "data:1,fail:11");
    vf_run(1);
    vf_assert(g_n[RD] == before + 1 && g_bytes == 1, "after a write the connection reads on");
    vf_cover("end");
}

// the completion callback writes again, the connection turns out broken, and the user closes it there
extern "C" void C15_again_broken()
{
    kernel();
    g_again = 0;
    server s;
    bool close = vf_pick("close", 0, 1);
    g_do[WR] = close ? 3 : 2;
    vf_reset();
    g_do[RD] = 2;
    s.accept();
    vf_script("read", "data:2,fail:11");
    int err = vf_pick("error", 0, 1);
    bool late = vf_pick("late", 0, 1);
    if (late)
    {
        vf_script("write", err ? "fail:11,data:2,fail:32" : "fail:11,data:2,fail:104");
        vf_run(1);
        vf_ready(s.conn, EPOLLOUT);
    }
    else
    {
        vf_script("write", err ? "data:2,fail:32" : "data:2,fail:104");
    }
    vf_run(1);
    vf_assert(g_n[WR] == 1, "completion is reported once, and only when everything was sent");
    if (close)
    {
        vf_assert(g_n[CL] == 0, "a connection the user closed is not reported closed by the peer");
        gone(s.conn);
    }
    else
    {
        vf_script("write", err ? "fail:32" : "fail:104");
        vf_script("read", "eof");
        vf_ready(s.conn, EPOLLOUT | EPOLLIN);
        vf_run(1);
        vf_assert(g_n[WR] == 1, "a broken connection is never reported complete");
        vf_assert(g_n[CL] == 1, "a connection that breaks is reported closed once");
        gone(s.conn);
    }
    vf_cover("end");
}

struct client;
static void connected_write(int how);

// the very first callback writes
extern "C" void C15_first()
{
    kernel();
    int how = vf_pick("writes", 0, 2);
    bool cl = vf_pick("client", 0, 1);
    if (cl)
    {
        connected_write(how);
        return;
    }
    server s;
    g_do[ACC] = 2;
    vf_reset();
    vf_script("write", how == 0 ? "data:2" : how == 1 ? "data:1,fail:11,data:1" : "fail:11,fail:11,data:2");
    vf_script("accept", "ok,fail:11");
    vf_ready(s.lfd, EPOLLIN);
    vf_run(2);
    int conn = vf_ret("accept", 0);
    vf_ready(conn, EPOLLOUT);
    vf_run(1);
    vf_ready(conn, EPOLLOUT);
    vf_run(1);
    vf_ready(conn, EPOLLOUT);
    vf_run(1);
    vf_assert(g_n[ACC] == 1, "a connection is announced once");
    vf_assert(g_n[WR] == 1, "each write that was started is reported complete once");
    sent(conn, 2);
    vf_ready(conn, EPOLLIN);
    vf_script("read", "data:1,fail:11");
    vf_run(1);
    vf_assert(g_n[RD] == 1 && g_bytes == 1, "after a write the connection reads on");
    vf_cover("end");
}

// the user closes the connection it has just written to, or on completion
extern "C" void C15_close()
{
    kernel();
    server s;
    vf_reset();
    int how = vf_pick("how", 0, 3);
    g_do[RD] = how < 2 ? 3 : 2;
    g_do[WR] = how < 2 ? 0 : 1;
    s.accept();
    vf_script("read", "data:2,fail:11");
    if (how == 0 || how == 2)
    {
        vf_script("write", "data:2");
    }
    else
    {
        vf_script("write", "data:1,fail:11,data:1");
    }
    vf_run(1);
    if (how == 3)
    {
        vf_ready(s.conn, EPOLLOUT);
        vf_run(1);
    }
    vf_assert(g_n[WR] == (how == 1 ? 0 : 1), "completion is reported once, and only when everything was sent");
    vf_assert(g_n[CL] == 0, "a connection the user closed is not reported closed by the peer");
    gone(s.conn);
    vf_cover("end");
}

// ---- C16 : shutdown
static void all_ended()
{
    for (int i = 1; i <= vf_nthreads(); ++i)
    {
        vf_assert(vf_ended(i) == 1, "no thread outlives shutdown");
    }
}

// shutdown at any point: threads not started, waiting, or half way with connections
extern "C" void C16_server()
{
    kernel();
    int conn = -1;
    int n, a;
    {
        int w = vf_pick("workers", 1, 2);
        a = vf_pick("listeners", 0, 2);
        int ext;
        tcp_server s(w, &ext);
        g_ext = &ext;
        setup(s);
        s.set_on_accept([](const std::shared_ptr<nsocktcp> &c) { called(ACC, c); });
        for (int i = 0; i < a; ++i)
        {
            s.listen(8080 + i, family::ipv4);
        }
        s.run();
        n = vf_nthreads();
        vf_assert(n == w + a, "one thread per worker and listener");
        if (vf_bool("idle"))
        {
            for (int i = 1; i <= n; ++i)
            {
                vf_run(i);
            }
        }
        s.shutdown();
        all_ended();
        vf_assert(vf_nthreads() == n, "shutting down starts no threads");
    }
    vf_cover("end");
}

extern "C" void C16_connected()
{
    kernel();
    int conn = -1, lfd = -1;
    {
        server s;
        lfd = s.lfd;
        int how = vf_pick("progress", 0, 3);
        vf_script("accept", "ok,fail:11");
        vf_ready(s.lfd, EPOLLIN);
        if (how > 0)
        {
            vf_run(2);
            conn = vf_ret("accept", 0);
            vf_ready(conn, EPOLLOUT);
        }
        if (how > 1)
        {
            vf_run(1);
        }
        if (how == 3)
        {
            vf_ready(conn, EPOLLIN);
            vf_script("read", "data:2,fail:11");
        }
        s.s.shutdown();
        all_ended();
        vf_assert(g_n[ACC] <= 1 && g_n[CL] == 0, "shutting down is not reported as closed by the peer");
        if (conn == -1 && vf_count("accept") > 0)
        {
            conn = vf_ret("accept", 0);
        }
    }
    if (conn != -1)
    {
        vf_assert(vf_closes(conn) == 1, "connections are closed with their server");
    }
    vf_assert(vf_closes(lfd) == 1, "the listening socket is closed with its server");
    vf_cover("end");
}

extern "C" void C16_client()
{
    kernel();
    {
        int ext;
        int w = vf_pick("workers", 1, 2);
        int k = vf_pick("connectors", 1, 2);
        tcp_client c(w, k, &ext);
        g_ext = &ext;
        setup(c);
        c.set_on_connect([](const std::shared_ptr<nsocktcp> &x) { called(CON, x); });
        c.run();
        int n = vf_nthreads();
        vf_assert(n == w + k, "one thread per worker and connector");
        if (vf_bool("idle"))
        {
            for (int i = 1; i <= n; ++i)
            {
                vf_run(i);
            }
        }
        c.shutdown();
        all_ended();
        vf_assert(vf_nthreads() == n, "shutting down starts no threads");
        vf_assert(vf_count("socket") == 0 && vf_count("connect") == 0, "a client connects only as asked");
    }
    vf_cover("end");
}

// ---- C17 : connections of a client
struct client
{
    int ext;
    tcp_client c;
    int n;

    client(int workers = 1, int connectors = 1) : c(workers, connectors, &ext)
    {
        g_ext = &ext;
        setup(c);
        c.set_on_connect([](const std::shared_ptr<nsocktcp> &x) { called(CON, x); });
    }
};

static void connected_write(int how)
{
    client c;
    g_do[CON] = 2;
    vf_reset();
    c.c.add("127.0.0.1", 8080, family::ipv4);
    c.c.run();
    vf_run(2);
    int conn = vf_ret("socket", 0);
    vf_script("write", how == 0 ? "data:2" : how == 1 ? "data:1,fail:11,data:1" : "fail:11,fail:11,data:2");
    vf_ready(conn, EPOLLOUT);
    vf_run(1);
    vf_assume(vf_optval(0) == 0);
    vf_ready(conn, EPOLLOUT);
    vf_run(1);
    vf_ready(conn, EPOLLOUT);
    vf_run(1);
    vf_assert(g_n[CON] == 1, "a connection is announced once");
    vf_assert(g_n[WR] == 1, "each write that was started is reported complete once");
    sent(conn, 2);
    vf_ready(conn, EPOLLIN);
    vf_script("read", "data:1,fail:11");
    vf_run(1);
    vf_assert(g_n[RD] == 1 && g_bytes == 1, "after a write the connection reads on");
    vf_cover("client");
}

extern "C" void C17_connect()
{
    kernel();
    client c;
    bool before = vf_bool("before");
    int t = vf_pick("times", 0, 2);
    vf_reset();
    if (before)
    {
        c.c.add("127.0.0.1", 8080, family::ipv4, t);
    }
    c.c.run();
    vf_run(2);
    if (!before)
    {
        c.c.add("127.0.0.1", 8080, family::ipv4, t);
        vf_run(2);
    }
    vf_assert(vf_count("socket") == t && vf_count("connect") == t, "as many connections are attempted as asked for");
    vf_assert(g_n[CON] == 0, "connections are handled by the workers, not by the connector");
    for (int i = 0; i < t; ++i)
    {
        vf_ready(vf_ret("socket", i), EPOLLOUT);
    }
    vf_run(1);
    if (t == 1)
    {
        int fd = vf_ret("socket", 0);
        if (vf_optval(0) == 0)
        {
            vf_assert(g_n[CON] == 1 && g_tid[CON] == 1 && g_fd == fd, "an established connection is announced once, by a worker");
            vf_assert((vf_armed(fd) & EPOLLIN) != 0 && vf_closes(fd) == 0, "an established connection is watched for reading");
            vf_cover("established");
            vf_ready(fd, EPOLLIN);
            vf_script("read", "data:2,fail:11");
            vf_run(1);
            vf_assert(g_n[RD] == 1 && g_bytes == 2, "an established connection delivers its data");
        }
        else
        {
            vf_assert(g_n[CON] == 0, "a failed connection is not announced");
            gone(fd);
            vf_cover("refused");
        }
        vf_assert(g_n[CL] == 0 && g_n[WR] == 0, "no callback without its event");
    }
    vf_assert(vf_count("socket") == t && vf_count("connect") == t, "as many connections are attempted as asked for");
    vf_cover("end");
}

// connect itself fails at once
extern "C" void C17_refused()
{
    kernel();
    client c;
    vf_reset();
    c.c.run();
    int how = vf_pick("how", 0, 6);
    // refused, in progress, no such path, queue of the path full, host or network not reached, no local address left
    const char *err[] = {"fail:111,fail:115", "fail:115,fail:115", "fail:2,ok", "fail:11,ok", "fail:113,fail:115", "fail:101,fail:115", "fail:99,fail:115"};
    vf_script("connect", err[how]);
    if (how == 2 || how == 3)
    {
        c.c.add_unix("/tmp/x", 2);
    }
    else
    {
        c.c.add("127.0.0.1", 8080, family::ipv4, 2);
    }
    vf_run(2);
    int fd = vf_ret("socket", 0), second = vf_ret("socket", 1);
    vf_assert(vf_count("connect") == 2, "a failed connection does not keep the others from being attempted");
    vf_assert(vf_closes(second) == 0 && vf_pollers(second) == 1, "a connection that was started is completed by a worker");
    if (how == 1)
    {
        vf_assert(vf_closes(fd) == 0 && vf_pollers(fd) == 1, "a connection in progress is completed by a worker");
    }
    else
    {
        gone(fd);
        vf_run(1);
        vf_assert(g_n[CON] == 0, "a failed connection is not announced");
    }
    vf_cover("end");
}

extern "C" void C17_shared()
{
    kernel();
    int k = vf_pick("connectors", 2, 3);
    client c(1, k);
    vf_reset();
    c.c.run();
    int t = vf_pick("times", 0, 5);
    bool u = vf_bool("unix");
    if (u)
    {
        c.c.add_unix("/tmp/x", t);
    }
    else
    {
        c.c.add("::1", 8080, family::ipv6, t);
    }
    vf_run(2);
    vf_run(3);
    if (k == 3) vf_run(4);
    vf_assert(vf_count("socket") == t && vf_count("connect") == t, "as many connections are attempted as asked for");
    for (int i = 0; i < t; ++i)
    {
        vf_assert(vf_arg("socket", i, 0) == (u ? AF_UNIX : AF_INET6), "connections are of the family asked for");
    }
    vf_cover("end");
}

// different hosts and repeated requests add up
extern "C" void C17_hosts()
{
    kernel();
    client c;
    vf_reset();
    int a = vf_pick("a", 1, 2);
    int p = vf_pick("port", 8080, 8081);
    c.c.add("127.0.0.1", 8080, family::ipv4, a);
    c.c.add("127.0.0.1", p, family::ipv4, 1);
    c.c.run();
    vf_run(2);
    vf_assert(vf_count("connect") == a + 1, "requests add up");
    vf_cover("end");
}

// requests while the connector runs: none is lost, at every system call of the connector and of the request
static client *g_c;
extern "C" void t_add()
{
    g_c->c.add("127.0.0.1", 8080, family::ipv4, 1);
}

extern "C" void C17_late()
{
    kernel();
    client c;
    g_c = &c;
    vf_reset();
    c.c.run();
    c.c.add("127.0.0.1", 8080, family::ipv4, 1);
    const char *at[] = {"read", "socket", "connect", "epoll_wait", "pthread_mutex_unlock"};
    vf_on(at[vf_pick("at", 0, 4)], "t_add", 9);
    vf_run(2);
    vf_off_all();
    if (vf_count("write") == 1)
    {
        t_add();
    }
    vf_run(2);
    vf_assert(vf_count("socket") == 2 && vf_count("connect") == 2, "no request is lost");
    vf_cover("end");
}

// two threads adding, and the connector
extern "C" void race_add1() { g_c->c.add("127.0.0.1", 8080, family::ipv4, 1); }
extern "C" void race_add2() { g_c->c.add("127.0.0.2", 8081, family::ipv4, 1); }

extern "C" void C17_race()
{
    kernel();
    client c;
    g_c = &c;
    c.c.run();
    vf_run(2);
    vf_race(1);
    vf_thread(11);
    race_add1();
    vf_thread(12);
    race_add2();
    vf_thread(0);
    vf_run(2);
    vf_race(0);
    vf_cover("end");
}

// ---- C18 : workers
// the next connection goes to a worker that has the fewest
static int poller_of(int fd)
{
    for (int i = 0; i < vf_count("epoll_ctl"); ++i)
    {
        if (vf_arg("epoll_ctl", i, 1) == EPOLL_CTL_ADD && vf_arg("epoll_ctl", i, 2) == fd)
        {
            return vf_arg("epoll_ctl", i, 0);
        }
    }
    return -1;
}

extern "C" void C18_spread()
{
    kernel();
    server s(2);
    vf_reset();
    vf_script("accept", "ok,ok,ok,fail:11");
    vf_ready(s.lfd, EPOLLIN);
    vf_run(3);
    int a = vf_ret("accept", 0), b = vf_ret("accept", 1), c = vf_ret("accept", 2);
    int pa = poller_of(a), pb = poller_of(b), pc = poller_of(c);
    vf_assert(vf_pollers(a) == 1 && vf_pollers(b) == 1 && vf_pollers(c) == 1, "each connection is handed to one worker");
    vf_assert(pa != pb, "a connection goes to a worker that has the fewest");
    // all three become ready; then the one on its own worker is closed by its peer
    vf_ready(a, EPOLLOUT);
    vf_ready(b, EPOLLOUT);
    vf_ready(c, EPOLLOUT);
    vf_run(1);
    vf_run(2);
    vf_assert(g_n[ACC] == 3, "every connection is announced, by the worker it was handed to");
    int lone = pc == pa ? b : a;
    vf_ready(lone, EPOLLIN);
    vf_script("read", "eof");
    vf_run(1);
    vf_run(2);
    vf_assert(g_n[CL] == 1 && g_fd == lone, "the connection that was ended is reported closed");
    vf_script("accept", "ok,ok,fail:11");
    vf_ready(s.lfd, EPOLLIN);
    vf_run(3);
    int d = vf_ret("accept", 4), e = vf_ret("accept", 5);
    vf_assert(poller_of(d) != pc, "a connection goes to a worker that has the fewest");
    vf_assert(vf_pollers(d) == 1 && vf_pollers(e) == 1, "each connection is handed to one worker");
    vf_cover("end");
}

// every callback of a connection runs in the same worker
extern "C" void C18_stays()
{
    kernel();
    server s(2);
    vf_reset();
    s.accept(3);
    vf_script("read", "data:2,fail:11");
    vf_script("write", "fail:11,data:2");
    g_do[RD] = 2;
    int first = vf_pick("first", 1, 2);
    vf_run(first);
    vf_run(3 - first);
    vf_assert(g_n[ACC] == 1 && g_n[RD] == 1, "the connection is served");
    vf_ready(s.conn, EPOLLOUT);
    vf_run(first);
    vf_run(3 - first);
    vf_assert(g_n[WR] == 1, "the write is completed");
    vf_ready(s.conn, EPOLLIN);
    vf_script("read", "eof");
    g_do[RD] = 0;
    vf_run(first);
    vf_run(3 - first);
    vf_assert(g_n[CL] == 1, "the end is reported");
    vf_assert(g_tid[ACC] == g_tid[RD] && g_tid[RD] == g_tid[WR] && g_tid[WR] == g_tid[CL],
        "every callback of a connection runs in the worker it was handed to");
    vf_cover("end");
}

extern "C" void C18_client()
{
    kernel();
    client c(2);
    vf_reset();
    c.c.add("127.0.0.1", 8080, family::ipv4, 2);
    c.c.run();
    vf_run(3);
    int a = vf_ret("socket", 0), b = vf_ret("socket", 1);
    vf_assert(vf_pollers(a) == 1 && vf_pollers(b) == 1 && poller_of(a) != poller_of(b), "a connection goes to a worker that has the fewest");
    vf_cover("end");
}

// ---- C36 : servers and clients use what they were given
static int famno(family f)
{
    return f == family::ipv4 ? AF_INET : f == family::ipv6 ? AF_INET6 : AF_UNIX;
}

static void used_addr(const char *call, family f, int port, bool any)
{
    vf_assert(vf_val(call, -1, 0) == famno(f), "the address carries the requested family");
    vf_assert(vf_val(call, -1, 1) == htons(port), "the requested port is used");
    if (any)
    {
        vf_assert(f == family::ipv4 ? vf_val(call, -1, 2) == 0 : vf_val(call, -1, 5) == 0, "a listener without address accepts on any");
    }
    else
    {
        vf_assert(vf_count("inet_pton") >= 1 && vf_arg("inet_pton", -1, 0) == famno(f), "the requested address is parsed for its family");
        vf_assert((char *)vf_argp("inet_pton", -1, 2) - (char *)vf_argp(call, -1, 1) == (f == family::ipv4 ? 4 : 8), "the requested address is the one that is used");
    }
}

static bool sigpipe_ignored()
{
    for (int i = 0; i < vf_count("sigaction"); ++i)
    {
        if (vf_arg("sigaction", i, 0) == SIGPIPE && (vf_count("pthread_create") == 0 || vf_pos("sigaction", i) < vf_pos("pthread_create", 0))) return true;
    }
    for (int i = 0; i < vf_count("signal"); ++i)
    {
        if (vf_arg("signal", i, 0) == SIGPIPE && (vf_count("pthread_create") == 0 || vf_pos("signal", i) < vf_pos("pthread_create", 0))) return true;
    }
    return false;
}

extern "C" void C36_listen()
{
    kernel();
    int w = vf_pick("workers", 1, 2);
    int port = vf_int("port", 0, 65535);
    int kind = vf_pick("kind", 0, 3);
    bool rm = vf_pick("remove", 0, 1);
    vf_assume(kind == 3 || !rm);
    {
        tcp_server s(w);
        vf_reset();
        if (kind == 0) s.listen(port, family::ipv4);
        if (kind == 1) s.listen(port, family::ipv6);
        if (kind == 2) s.listen(port, family::ipv4, "127.0.0.1");
        if (kind == 3) s.listen_unix("/tmp/sock", rm);
        family f = kind == 1 ? family::ipv6 : kind == 3 ? family::local : family::ipv4;
        vf_assert(vf_count("socket") == 1 && vf_count("bind") == 1 && vf_count("listen") == 1, "a listener is one bound and listening socket");
        int fd = vf_ret("socket", 0);
        vf_assert(vf_arg("socket", 0, 0) == famno(f) && (vf_arg("socket", 0, 1) & 15) == SOCK_STREAM, "a listener is a stream socket of the requested family");
        vf_assert(vf_arg("bind", 0, 0) == fd && vf_arg("listen", 0, 0) == fd, "the listener's own socket is bound and listens");
        vf_assert(vf_pos("bind", 0) < vf_pos("listen", 0), "a listener is bound before it listens");
        if (kind != 3)
        {
            used_addr("bind", f, port, kind != 2);
        }
        else
        {
            vf_assert(vf_val("bind", 0, 0) == AF_UNIX && vf_val("bind", 0, 4) == 9, "the requested path is used");
            vf_assert(vf_count("unlink") == (rm ? 1 : 0), "an existing file is removed exactly on request");
        }
        vf_assert(vf_nthreads() == 0, "nothing runs before the server is run");
        s.run();
        int n = vf_nthreads();
        vf_assert(n == w + 1, "one thread per worker and listener");
        vf_assert(sigpipe_ignored(), "a connection that breaks while it is written does not end the program");
        for (int i = 1; i <= n; ++i)
        {
            vf_run(i);
        }
        vf_assert(vf_armed(fd) & EPOLLIN, "a running server watches its listener");
        vf_assert(vf_pollers(fd) == 1, "one thread accepts the connections of a listener");
        s.shutdown();
    }
    vf_cover("end");
}

extern "C" void C36_listen_fails()
{
    kernel();
    int at = vf_pick("at", 0, 3);
    bool un = vf_pick("unix", 0, 1);
    int fd = -1, second;
    {
        tcp_server s(1);
        vf_reset();
        if (at == 0) vf_script("socket", "fail:24,ok");
        if (at == 1) vf_script("bind", "fail:98,ok");
        if (at == 2) vf_script("listen", "fail:98,ok");
        if (at == 3) vf_script("setsockopt", "fail:92,ok,ok,ok");
        vf_assume(at != 3 || !un);
        int code = 0;
        bool threw = false;
        try
        {
            if (un)
            {
                s.listen_unix("/tmp/sock");
            }
            else
            {
                s.listen(8080, family::ipv4);
            }
        }
        catch (const std::system_error &e)
        {
            threw = true;
            code = e.code().value();
        }
        vf_assert(threw && code == (at == 0 ? 24 : at == 3 ? 92 : 98), "a listener that cannot be set up is refused with the error of the call that failed");
        if (at != 0)
        {
            fd = vf_ret("socket", 0);
            vf_assert(vf_closes(fd) == 1, "the socket of a refused listener is closed");
        }
        s.listen(8081, family::ipv4);
        second = vf_ret("socket", -1);
        s.run();
        int n = vf_nthreads();
        vf_assert(n == 2, "a refused listener does not run");
        vf_run(1);
        vf_run(2);
        vf_assert(vf_pollers(second) == 1 && (vf_armed(second) & EPOLLIN), "the server goes on with its other listeners");
        s.shutdown();
        for (int i = 1; i <= n; ++i)
        {
            vf_assert(vf_ended(i), "every thread has ended");
        }
    }
    vf_cover("end");
}

extern "C" void C36_client()
{
    kernel();
    int w = vf_pick("workers", 1, 2), k = vf_pick("connectors", 1, 2);
    int port = vf_int("port", 1, 65535);
    int kind = vf_pick("kind", 0, 2);
    {
        tcp_client c(w, k);
        vf_assert(vf_nthreads() == 0, "nothing runs before the client is run");
        c.run();
        int n = vf_nthreads();
        vf_assert(n == w + k, "one thread per worker and connector");
        vf_assert(sigpipe_ignored(), "a connection that breaks while it is written does not end the program");
        vf_reset();
        if (kind == 0) c.add("127.0.0.1", port, family::ipv4);
        if (kind == 1) c.add("::1", port, family::ipv6);
        if (kind == 2) c.add_unix("/tmp/sock");
        for (int i = 1; i <= n; ++i)
        {
            vf_run(i);
        }
        family f = kind == 0 ? family::ipv4 : kind == 1 ? family::ipv6 : family::local;
        vf_assert(vf_count("socket") == 1 && vf_count("connect") == 1 && vf_arg("connect", 0, 0) == vf_ret("socket", 0), "one connection is attempted on its own socket");
        vf_assert(vf_arg("socket", 0, 0) == famno(f) && (vf_arg("socket", 0, 1) & 15) == SOCK_STREAM, "a connection is a stream socket of the requested family");
        if (kind != 2)
        {
            used_addr("connect", f, port, false);
        }
        else
        {
            vf_assert(vf_val("connect", 0, 0) == AF_UNIX && vf_val("connect", 0, 4) == 9, "the requested path is used");
        }
        c.shutdown();
    }
    vf_cover("end");
}

// a callback that was never set does nothing
extern "C" void C36_unset()
{
    kernel();
    vf_static("idle_handler");
    tcp_server s(1);
    s.listen(8080, family::ipv4);
    int lfd = vf_ret("socket", -1);
    s.run();
    vf_script("accept", "ok,fail:11");
    vf_ready(lfd, EPOLLIN);
    vf_run(2);
    int conn = vf_ret("accept", 0);
    vf_ready(conn, EPOLLIN | EPOLLOUT);
    vf_script("read", "data:2,eof");
    vf_run(1);
    gone(conn);
    vf_assert(vf_ended(1) == 0 && vf_ended(2) == 0, "the server goes on");
    vf_cover("end");
}

// callbacks set in any order, each one called for its own event, with what the user gave
extern "C" void C36_callbacks()
{
    kernel();
    int ext;
    g_ext = &ext;
    tcp_server s(1, &ext);
    s.set_on_closed([](const std::shared_ptr<nsocktcp> &c) { called(CL, c); });
    s.set_on_write_complete([](const std::shared_ptr<nsocktcp> &c) { called(WR, c); });
    s.set_on_accept([](const std::shared_ptr<nsocktcp> &c) { called(ACC, c); });
    s.set_on_read_complete([](const std::shared_ptr<nsocktcp> &c) { called(RD, c); });
    g_do[RD] = 2;
    s.listen(8080, family::ipv4);
    int lfd = vf_ret("socket", -1);
    s.run();
    vf_script("accept", "ok,fail:11");
    vf_ready(lfd, EPOLLIN);
    vf_run(2);
    int conn = vf_ret("accept", 0);
    vf_ready(conn, EPOLLOUT);
    vf_run(1);
    vf_assert(g_n[ACC] == 1 && g_n[RD] == 0 && g_n[WR] == 0 && g_n[CL] == 0, "an accepted connection calls the accept callback");
    vf_ready(conn, EPOLLIN);
    vf_script("read", "data:2,fail:11");
    vf_script("write", "data:2");
    vf_run(1);
    vf_assert(g_n[ACC] == 1 && g_n[RD] == 1 && g_n[WR] == 1 && g_n[CL] == 0, "data calls the read callback, sending it all the write callback");
    g_do[RD] = 0;
    vf_ready(conn, EPOLLIN);
    vf_script("read", "eof");
    vf_run(1);
    vf_assert(g_n[ACC] == 1 && g_n[WR] == 1 && g_n[CL] == 1, "the end of a connection calls the close callback");
    vf_cover("end");
}

extern "C" void C36_client_callbacks()
{
    kernel();
    int ext;
    g_ext = &ext;
    tcp_client c(1, 1, &ext);
    c.set_on_closed([](const std::shared_ptr<nsocktcp> &x) { called(CL, x); });
    c.set_on_write_complete([](const std::shared_ptr<nsocktcp> &x) { called(WR, x); });
    c.set_on_connect([](const std::shared_ptr<nsocktcp> &x) { called(CON, x); });
    c.set_on_read_complete([](const std::shared_ptr<nsocktcp> &x) { called(RD, x); });
    g_do[CON] = 2;
    vf_reset();
    c.add("127.0.0.1", 8080, family::ipv4);
    c.run();
    vf_run(2);
    int conn = vf_ret("socket", 0);
    vf_ready(conn, EPOLLOUT);
    vf_script("write", "data:2");
    vf_run(1);
    vf_assume(vf_optval(0) == 0);
    vf_assert(g_n[CON] == 1 && g_n[RD] == 0 && g_n[WR] == 1 && g_n[CL] == 0, "an established connection calls the connect callback, sending it all the write callback");
    vf_ready(conn, EPOLLIN);
    vf_script("read", "data:1,eof");
    vf_run(1);
    vf_assert(g_n[CON] == 1 && g_n[RD] == 1 && g_n[WR] == 1 && g_n[CL] == 1, "data and the end of a connection call their callbacks");
    vf_cover("end");
}
