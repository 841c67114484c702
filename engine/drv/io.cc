#include "vf.h"
#include "cppev/nio.h"
#include <cerrno>
#include <arpa/inet.h>
#include <sys/socket.h>
#include <system_error>

using namespace cppev;

// ---- C01 : stream reading
static int fill(buffer &b, const char *name, int lo, int hi)
{
    static char src[4];
    src[0] = vf_int("p0", -128, 127);
    src[1] = vf_int("p1", -128, 127);
    src[2] = vf_int("p2", -128, 127);
    int n = vf_pick(name, lo, hi);
    b.produce(src, n);
    return n;
}

static int pre(int i)
{
    return i == 0 ? vf_int("p0", -128, 127) : i == 1 ? vf_int("p1", -128, 127) : vf_int("p2", -128, 127);
}

static void read_spec(nstream &s, int fd, bool all)
{
    int n = fill(s.rbuffer(), "have", 0, 2);
    int drop = vf_pick("drop", 0, 1);
    vf_assume(drop <= n);
    if (drop)
    {
        s.rbuffer().consume(drop);
    }
    n -= drop;
    int len = vf_pick("len", 1, 3);
    vf_reset();
    int got = -1;
    bool threw = false;
    int code = 0;
    try
    {
        got = all ? s.read_all(len) : s.read_chunk(len);
    }
    catch (const std::system_error &e)
    {
        threw = true;
        code = e.code().value();
    }
    int total = vf_rcount(fd);
    vf_assert(s.rbuffer().size() == n + total, "every byte read from the descriptor is in the read buffer");
    for (int i = 0; i < n; ++i)
    {
        vf_assert(s.rbuffer()[i] == pre(i + drop), "bytes already buffered stay in place");
    }
    for (int i = 0; i < total; ++i)
    {
        vf_assert(s.rbuffer()[n + i] == vf_rbyte(fd, i), "bytes are buffered in stream order");
    }
    bool failed = vf_failed("read");
    int err = vf_err("read", -1);
    bool again = failed && (err == EAGAIN || err == EWOULDBLOCK);
    bool reset = failed && err == ECONNRESET;
    bool intr = failed && err == EINTR;
    vf_assert(!intr, "an interrupted read is retried");
    if (threw)
    {
        vf_cover("threw");
        vf_assert(failed && !again && !reset && code == err, "a read error is thrown with its errno");
    }
    else
    {
        vf_assert(!failed || again || reset, "a fatal read error is thrown");
        vf_assert(got == total, "the return value is the number of bytes read");
        bool eof = !failed && vf_ret("read", -1) == 0;
        vf_assert(s.eof() == eof, "eof is reported exactly when the peer closed");
        vf_assert(s.is_reset() == reset, "reset is reported exactly when the connection was reset");
        if (all)
        {
            vf_assert(eof || failed, "reading everything stops only at end of stream or when it would block");
        }
        else
        {
            vf_assert(total <= len, "at most the requested bytes are read");
            vf_assert(total == len || eof || failed, "a short count means end of stream or would block");
        }
        if (eof) vf_cover("eof");
        if (reset) vf_cover("reset");
        if (again && total) vf_cover("partial");
    }
    vf_assert(!s.is_closed(), "reading does not close the stream");
}

extern "C" void C01_chunk()
{
    vf_ok("fcntl");
    int fd = vf_int("fd", 0, 1000);
    nstream s(fd);
    read_spec(s, fd, false);
}

extern "C" void C01_all()
{
    vf_ok("fcntl");
    int fd = vf_int("fd", 0, 1000);
    nstream s(fd);
    read_spec(s, fd, true);
}

// ---- C02 : stream writing
static void write_spec(nstream &s, int fd, bool all)
{
    int n = fill(s.wbuffer(), "have", 0, 3);
    int drop = vf_pick("drop", 0, 1);
    vf_assume(drop <= n);
    if (drop)
    {
        s.wbuffer().consume(drop);
    }
    n -= drop;
    int len = vf_pick("len", 1, 4);
    int want = all || len > n ? n : len;
    vf_reset();
    int put = -1;
    bool threw = false;
    int code = 0;
    try
    {
        put = all ? s.write_all(len) : s.write_chunk(len);
    }
    catch (const std::system_error &e)
    {
        threw = true;
        code = e.code().value();
    }
    int total = vf_wcount(fd);
    vf_assert(total <= want, "no more than the requested buffered bytes are written");
    vf_assert(s.wbuffer().size() == n - total, "exactly the bytes the descriptor accepted leave the write buffer");
    for (int i = 0; i < total && i < n; ++i)
    {
        vf_assert(vf_wbyte(fd, i) == pre(i + drop), "bytes are written in buffer order");
    }
    for (int i = 0; i < s.wbuffer().size() && i < 3; ++i)
    {
        vf_assert(s.wbuffer()[i] == pre(i + drop + total), "unsent bytes stay in the write buffer in order");
    }
    bool failed = vf_failed("write");
    int err = vf_err("write", -1);
    bool again = failed && (err == EAGAIN || err == EWOULDBLOCK);
    bool reset = failed && err == ECONNRESET;
    bool pipe = failed && err == EPIPE;
    vf_assert(!(failed && err == EINTR), "an interrupted write is retried");
    if (threw)
    {
        vf_cover("threw");
        vf_assert(failed && !again && !reset && !pipe && code == err, "a write error is thrown with its errno");
    }
    else
    {
        vf_assert(!failed || again || reset || pipe, "a fatal write error is thrown");
        vf_assert(put == total, "the return value is the number of bytes written");
        vf_assert(s.eop() == pipe, "a broken pipe is reported exactly when it happened");
        vf_assert(s.is_reset() == reset, "reset is reported exactly when the connection was reset");
        vf_assert(total == want || failed, "writing stops early only when it would block or failed");
        if (again && total) vf_cover("partial");
        if (pipe) vf_cover("pipe");
        if (reset) vf_cover("reset");
    }
    vf_assert(!s.is_closed(), "writing does not close the stream");
}

extern "C" void C02_chunk()
{
    vf_ok("fcntl");
    int fd = vf_int("fd", 0, 1000);
    nstream s(fd);
    write_spec(s, fd, false);
}

extern "C" void C02_all()
{
    vf_ok("fcntl");
    int fd = vf_int("fd", 0, 1000);
    nstream s(fd);
    write_spec(s, fd, true);
}

// ---- C03 : buffer
struct model_t
{
    char c[8];
    int n;
};

static void same(const buffer &b, const model_t &m, const char *msg)
{
    vf_assert(b.size() == m.n, msg);
    for (int i = 0; i < m.n; ++i)
    {
        vf_assert(b[i] == m.c[i], msg);
        vf_assert(b.rawbuf()[i] == m.c[i], msg);
    }
    vf_assert(b.capacity() >= b.size(), "the capacity covers the contents");
}

static void buf_state(buffer &b, model_t &m)
{
    static char src[4];
    src[0] = vf_int("p0", -128, 127);
    src[1] = vf_int("p1", -128, 127);
    src[2] = vf_int("p2", -128, 127);
    src[3] = vf_int("p3", -128, 127);
    int n = vf_pick("n", 0, 3), d = vf_pick("d", 0, 2);
    vf_assume(d <= n);
    m.n = 0;
    b.produce(src, n);
    if (d)
    {
        b.consume(d);
    }
    for (int i = d; i < n; ++i)
    {
        m.c[m.n++] = src[i];
    }
    if (vf_pick("tail", 0, 1))
    {
        b.produce(src + 3, 1);
        m.c[m.n++] = src[3];
    }
    same(b, m, "produce appends, consume removes from the front");
}

static void buf_more(buffer &b, model_t &m, const char *msg)
{
    // the result is a working buffer
    char z = vf_int("z", -128, 127);
    b.produce(&z, 1);
    m.c[m.n++] = z;
    same(b, m, msg);
}

extern "C" void C03_ops()
{
    int cap = vf_pick("cap", 1, 2);
    buffer b(cap);
    vf_assert(b.size() == 0 && b.capacity() >= cap, "a new buffer is empty and has the requested capacity");
    model_t m;
    buf_state(b, m);
    int op = vf_pick("op", 0, 7);
    char two[2];
    two[0] = vf_int("q0", -128, 127);
    two[1] = vf_int("q1", -128, 127);
    if (op == 0)
    {
        int r = vf_pick("r", 0, 9);
        int before = b.capacity();
        b.resize(r);
        vf_assert(b.capacity() >= r && b.capacity() >= before, "resize provides the requested capacity and never shrinks");
        same(b, m, "resize keeps the contents");
    }
    else if (op == 1)
    {
        b.tiny();
        same(b, m, "tiny keeps the contents");
    }
    else if (op == 2)
    {
        b.clear();
        m.n = 0;
        same(b, m, "clear empties the buffer");
    }
    else if (op == 3)
    {
        b.produce(two, 2);
        m.c[m.n++] = two[0];
        m.c[m.n++] = two[1];
        same(b, m, "produce appends");
    }
    else if (op == 4)
    {
        b.put_string(std::string(two, 2));
        m.c[m.n++] = two[0];
        m.c[m.n++] = two[1];
        same(b, m, "put_string appends every byte of the string");
    }
    else if (op == 5)
    {
        int k = vf_pick("k", -1, 4);
        vf_assume(k <= m.n);
        bool rm = vf_pick("rm", 0, 1);
        std::string str = b.get_string(k, rm);
        int t = k == -1 ? m.n : k;
        vf_assert((int)str.size() == t, "get_string returns the requested number of bytes");
        for (int i = 0; i < t; ++i)
        {
            vf_assert(str[i] == m.c[i], "get_string returns the oldest bytes in order");
        }
        if (rm)
        {
            for (int i = t; i < m.n; ++i)
            {
                m.c[i - t] = m.c[i];
            }
            m.n -= t;
        }
        same(b, m, "get_string removes exactly what it returned, or nothing");
    }
    else if (op == 6)
    {
        int k = vf_pick("k", -1, 4);
        vf_assume(k <= m.n);
        b.consume(k);
        int t = k == -1 ? m.n : k;
        for (int i = t; i < m.n; ++i)
        {
            m.c[i - t] = m.c[i];
        }
        m.n -= t;
        same(b, m, "consume drops exactly the oldest bytes");
    }
    else
    {
        if (m.n)
        {
            b[m.n - 1] = two[0];
            m.c[m.n - 1] = two[0];
            b.rawbuf()[0] = two[1];
            m.c[0] = two[1];
        }
        same(b, m, "indexing reaches the unconsumed bytes");
    }
    buf_more(b, m, "the buffer keeps its contents after further use");
    vf_cover("end");
}

extern "C" void C03_copy()
{
    buffer a, b(2);
    model_t ma, mb;
    buf_state(a, ma);
    mb.n = 0;
    b.produce("xy", 2);
    int op = vf_pick("op", 0, 5);
    if (op == 0)
    {
        buffer c(a);
        mb = ma;
        same(c, mb, "a copy has the same contents");
        buf_more(c, mb, "a copy is usable");
        same(a, ma, "the original is independent of its copy");
    }
    else if (op == 1)
    {
        b = a;
        mb = ma;
        same(b, mb, "copy assignment transfers the contents");
        buf_more(b, mb, "an assigned buffer is usable");
        same(a, ma, "the original is independent of its copy");
    }
    else if (op == 2)
    {
        buffer c(std::move(a));
        mb = ma;
        same(c, mb, "moving transfers the contents");
        buf_more(c, mb, "a moved buffer is usable");
        ma.n = 0;
        same(a, ma, "a moved-from buffer is empty");
        buf_more(a, ma, "a moved-from buffer is usable");
    }
    else if (op == 3)
    {
        b = std::move(a);
        mb = ma;
        same(b, mb, "move assignment transfers the contents");
        buf_more(b, mb, "a moved buffer is usable");
        ma.n = 0;
        same(a, ma, "a moved-from buffer is empty");
        buf_more(a, ma, "a moved-from buffer is usable");
    }
    else
    {
        buffer &r = a;
        if (op == 4)
        {
            a = r;
        }
        else
        {
            a = std::move(r);
        }
        same(a, ma, "self assignment keeps the contents");
        buf_more(a, ma, "a self-assigned buffer is usable");
    }
    vf_cover("end");
}

extern "C" void C03_ctor()
{
    int cap = vf_pick("cap", -2, 0);
    bool threw = false;
    try
    {
        buffer b(cap);
    }
    catch (const std::logic_error &)
    {
        threw = true;
    }
    vf_assert(threw, "a capacity below one byte is rejected");
    vf_cover("end");
}

extern "C" void C03_large()
{
    // any amount already consumed and any further request: only the capacity and the cursors matter
    int n = vf_int("n", 0, 1 << 20);
    buffer b(1);
    b.resize(n);
    vf_assert(b.capacity() >= n, "resize provides the requested capacity");
    vf_assert(b.size() == 0, "resize keeps the contents");
    vf_cover("end");
}

// ---- C04 : descriptor ownership.  (The analyser also checks at the end of every C04 driver that each descriptor
// the library acquired was closed exactly once.)
extern "C" void C04_lifetime()
{
    vf_ok("fcntl");
    vf_only("close", "ok,intr");
    int fd = vf_int("fd", 0, 1000);
    int how = vf_pick("how", 0, 3);
    {
        std::unique_ptr<nio> p;
        if (how == 0) p.reset(new nio(fd));
        if (how == 1) p.reset(new nstream(fd));
        if (how == 2) p.reset(new nsocktcp(fd, family::ipv4));
        if (how == 3) p.reset(new nsockudp(fd, family::ipv6));
        vf_assert(p->fd() == fd && !p->is_closed(), "the object owns the descriptor it was given");
        int n = vf_pick("closes", 0, 2);
        for (int i = 0; i < n; ++i)
        {
            p->close();
            vf_assert(p->is_closed(), "close marks the object closed");
            vf_assert(vf_closes(fd) == 1, "close closes the descriptor once");
        }
        vf_assert(vf_closes(fd) == (n ? 1 : 0), "the descriptor stays open until closed or destroyed");
    }
    vf_assert(vf_closes(fd) == 1, "the descriptor is closed exactly once over the object's life");
    vf_cover("end");
}

template <typename T>
static void move_fd(T &a, T &b, int fa, int fb)
{
    bool closed = vf_pick("closed", 0, 1);
    bool bclosed = vf_pick("bclosed", 0, 1);
    if (closed) a.close();
    if (bclosed) b.close();
    b = std::move(a);
    vf_assert(vf_closes(fb) == 1, "the replaced descriptor is closed by move assignment");
    vf_assert(vf_closes(fa) == (closed ? 1 : 0), "moving does not close the moved descriptor");
    vf_assert(a.is_closed(), "a moved-from object no longer owns a descriptor");
    vf_assert(b.is_closed() == closed, "moving carries the closed state");
    if (!closed)
    {
        vf_assert(b.fd() == fa, "moving carries the descriptor");
    }
}

extern "C" void C04_assign()
{
    vf_ok("fcntl");
    int fa = vf_int("fa", 0, 1000), fb = vf_int("fb", 1001, 2000);
    int how = vf_pick("how", 0, 3);
    {
        if (how == 0) { nio a(fa), b(fb); move_fd(a, b, fa, fb); }
        if (how == 1) { nstream a(fa), b(fb); move_fd(a, b, fa, fb); }
        if (how == 2) { nsocktcp a(fa, family::ipv4), b(fb, family::ipv4); move_fd(a, b, fa, fb); }
        if (how == 3) { nsockudp a(fa, family::ipv4), b(fb, family::ipv4); move_fd(a, b, fa, fb); }
    }
    vf_assert(vf_closes(fa) == 1 && vf_closes(fb) == 1, "each descriptor is closed exactly once across moves");
    vf_cover("end");
}

extern "C" void C04_construct()
{
    vf_ok("fcntl");
    int fa = vf_int("fa", 0, 1000);
    int how = vf_pick("how", 0, 3);
    {
        if (how == 0) { nio a(fa); nio b(std::move(a)); vf_assert(a.is_closed() && b.fd() == fa && !b.is_closed(), "move construction transfers ownership"); }
        if (how == 1) { nstream a(fa); nstream b(std::move(a)); vf_assert(a.is_closed() && b.fd() == fa && !b.is_closed(), "move construction transfers ownership"); }
        if (how == 2) { nsocktcp a(fa, family::ipv4); nsocktcp b(std::move(a)); vf_assert(a.is_closed() && b.fd() == fa && !b.is_closed(), "move construction transfers ownership"); }
        if (how == 3) { nsockudp a(fa, family::ipv4); nsockudp b(std::move(a)); vf_assert(a.is_closed() && b.fd() == fa && !b.is_closed(), "move construction transfers ownership"); }
    }
    vf_assert(vf_closes(fa) == 1, "each descriptor is closed exactly once across moves");
    vf_cover("end");
}

template <typename T, typename... A>
static void move_closed(int fa, A... a)
{
    T x(fa, a...);
    x.close();
    T y(std::move(x));
    vf_assert(x.is_closed() && y.is_closed(), "moving carries the closed state");
}

extern "C" void C04_construct_closed()
{
    vf_ok("fcntl");
    int fa = vf_int("fa", 0, 1000);
    int how = vf_pick("how", 0, 3);
    if (how == 0) move_closed<nio>(fa);
    if (how == 1) move_closed<nstream>(fa);
    if (how == 2) move_closed<nsocktcp>(fa, family::ipv4);
    if (how == 3) move_closed<nsockudp>(fa, family::ipv4);
    vf_assert(vf_closes(fa) == 1, "each descriptor is closed exactly once across moves");
    vf_cover("end");
}

extern "C" void C04_self()
{
    vf_ok("fcntl");
    int fa = vf_int("fa", 0, 1000);
    {
        nsocktcp a(fa, family::ipv4);
        nsocktcp &r = a;
        a = std::move(r);
        vf_assert(vf_closes(fa) == 0 && !a.is_closed() && a.fd() == fa, "self move assignment changes nothing");
    }
    vf_assert(vf_closes(fa) == 1, "each descriptor is closed exactly once across moves");
    vf_cover("end");
}

// everything these calls opened was closed once
static void all_closed(const char *call)
{
    int n = vf_count(call);
    for (int i = 0; i < n; ++i)
    {
        int fd = vf_ret(call, i);
        if (fd != -1)
        {
            vf_assert(vf_closes(fd) == 1, "what a factory opened is closed once in the end");
        }
    }
}

extern "C" void C04_factory()
{
    vf_ok("fcntl");
    vf_set("unroll", 40);
    int how = vf_pick("how", 0, 3);
    try
    {
        if (how == 0)
        {
            auto s = nio_factory::get_nsocktcp(family::ipv4);
            vf_assert(s->fd() == vf_ret("socket", -1) && !s->is_closed(), "the factory returns an open socket");
        }
        if (how == 1)
        {
            auto s = nio_factory::get_nsockudp(family::ipv6);
            vf_assert(s->fd() == vf_ret("socket", -1) && !s->is_closed(), "the factory returns an open socket");
        }
        if (how == 2)
        {
            auto p = nio_factory::get_pipes();
            vf_assert(p.size() == 2, "a pipe has two ends");
            vf_assert(p[0]->fd() == vf_piped(-1, 0) && p[1]->fd() == vf_piped(-1, 1), "the first stream is the read end, the second the write end");
        }
        if (how == 3)
        {
            auto p = nio_factory::get_fifos("/tmp/fifo");
            vf_assert(p.size() == 2, "a fifo has two ends");
            vf_assert(p[0]->fd() == vf_ret("open", 0) && p[1]->fd() == vf_ret("open", 1), "the first stream is the read end, the second the write end");
            vf_assert((vf_arg("open", 0, 1) & 3) == 0 && (vf_arg("open", 1, 1) & 3) == 1, "the first stream is the read end, the second the write end");
        }
        vf_cover("end");
    }
    catch (const std::system_error &e)
    {
        vf_assert(vf_nfail() > 0 && e.code().value() == vf_lasterr(), "a failed factory reports the error of the failing call");
        vf_assert(how != 3 || vf_count("open") || e.code().value() != EEXIST, "a fifo that exists already is used");
        vf_cover("threw");
    }
    all_closed("socket");
    all_closed("open");
    if (vf_count("pipe") && !vf_failed("pipe"))
    {
        vf_assert(vf_closes(vf_piped(-1, 0)) == 1 && vf_closes(vf_piped(-1, 1)) == 1, "what a factory opened is closed once in the end");
    }
}

extern "C" void C04_accept()
{
    vf_ok("fcntl");
    vf_set("unroll", 60);
    int fd = vf_int("fd", 0, 1000);
    {
        int fam = vf_pick("family", 0, 2);
        family f = fam == 0 ? family::ipv4 : fam == 1 ? family::ipv6 : family::local;
        nsocktcp s(fd, f);
        int batch = fam ? 1 : vf_pick("batch", 0, 2);
        vf_reset();
        try
        {
            auto v = s.accept(batch);
            int n = v.size();
            vf_assert(n <= batch, "at most a batch is accepted");
            for (int i = 0; i < n; ++i)
            {
                vf_assert(!v[i]->is_closed() && v[i]->sockfamily() == f, "accepted sockets are open and of the listener's family");
            }
            vf_assert(vf_accepted() == n, "every accepted connection is returned");
            vf_cover("end");
        }
        catch (const std::system_error &e)
        {
            int err = vf_lasterr();
            vf_assert(e.code().value() == err && err != EAGAIN && err != EWOULDBLOCK && err != EINTR && err != ECONNABORTED,
                "accept throws only on a real error of the listener");
            vf_cover("threw");
        }
        vf_assert(!s.is_closed(), "accepting does not close the listener");
    }
    vf_assert(vf_closes(fd) == 1, "the descriptor is closed exactly once over the object's life");
}

// ---- C05 : moves carry the whole state
static void put2(buffer &b, const char *n0, const char *n1)
{
    char t[2];
    t[0] = vf_int(n0, -128, 127);
    t[1] = vf_int(n1, -128, 127);
    b.produce(t, 2);
}

static void check2(const buffer &b, const char *n0, const char *n1, const char *msg)
{
    vf_assert(b.size() == 2, msg);
    vf_assert(b[0] == vf_int(n0, -128, 127) && b[1] == vf_int(n1, -128, 127), msg);
}

template <typename T>
static void stream_flags(T &a)
{
    // reach any combination of flags through the public operations
    if (vf_pick("eof", 0, 1))
    {
        vf_only("read", "eof");
        a.read_chunk(1);
    }
    int w = vf_pick("w", 0, 2);
    if (w)
    {
        a.wbuffer().produce("x", 1);
        vf_only("write", "fail");
        try
        {
            a.write_chunk(1);
        }
        catch (const std::system_error &)
        {
        }
        vf_assume(w == 1 ? a.eop() : a.is_reset());
        a.wbuffer().clear();
    }
}

template <typename T>
static void prep(T &a)
{
    put2(a.rbuffer(), "r0", "r1");
    put2(a.wbuffer(), "w0", "w1");
    a.set_evlp(*static_cast<event_loop *>(vf_ptr("loop")));
}

template <typename T>
static void check(T &b, int fa)
{
    check2(b.rbuffer(), "r0", "r1", "moving carries the unread bytes");
    check2(b.wbuffer(), "w0", "w1", "moving carries the unsent bytes");
    vf_assert(&b.evlp() == vf_ptr("loop"), "moving carries the event loop");
    vf_assert(b.fd() == fa && !b.is_closed(), "moving carries the descriptor");
}

// the source of a move takes a new state and has it
template <typename T, typename... A>
static void again(T &a, A... args)
{
    int fc = vf_int("fc", 2001, 3000);
    {
        T c(fc, args...);
        c.rbuffer().produce("pq", 2);
        a = std::move(c);
    }
    vf_assert(a.fd() == fc && !a.is_closed() && vf_closes(fc) == 0, "a moved-from object takes the state assigned to it");
    vf_assert(a.rbuffer().size() == 2 && a.rbuffer()[1] == 'q' && a.wbuffer().size() == 0, "a moved-from object takes the buffers assigned to it");
    a.rbuffer().produce("r", 1);
    vf_assert(a.rbuffer().get_string(-1) == "pqr", "the buffers of an assigned object work");
}

extern "C" void C05_again()
{
    vf_ok("fcntl");
    int fa = vf_int("fa", 0, 1000);
    int kind = vf_pick("kind", 0, 3);
    if (kind == 0)
    {
        nio a(fa);
        { nio b(std::move(a)); }
        again(a);
    }
    else if (kind == 1)
    {
        nstream a(fa);
        { nstream b(std::move(a)); }
        again(a);
        vf_assert(!a.eof() && !a.eop() && !a.is_reset(), "a moved-from stream takes the flags assigned to it");
    }
    else if (kind == 2)
    {
        nsocktcp a(fa, family::ipv4);
        { nsocktcp b(std::move(a)); }
        again(a, family::ipv6);
        vf_assert(a.sockfamily() == family::ipv6, "a moved-from socket takes the family assigned to it");
    }
    else
    {
        nsockudp a(fa, family::ipv4);
        { nsockudp b(std::move(a)); }
        again(a, family::ipv6);
        vf_assert(a.sockfamily() == family::ipv6, "a moved-from socket takes the family assigned to it");
    }
    vf_assert(vf_closes(fa) == 1, "the moved descriptor is closed once, by its new owner");
    vf_cover("end");
}

extern "C" void C05_nio()
{
    vf_ok("fcntl");
    int fa = vf_int("fa", 0, 1000), fb = vf_int("fb", 1001, 2000);
    nio a(fa);
    prep(a);
    if (vf_pick("assign", 0, 1))
    {
        nio b(fb);
        b.rbuffer().produce("zz", 2);
        b.wbuffer().produce("zzz", 3);
        b = std::move(a);
        check(b, fa);
    }
    else
    {
        nio b(std::move(a));
        check(b, fa);
    }
    vf_cover("end");
}

template <typename T>
static void stream_move(T &a, T *bp, int fa)
{
    stream_flags(a);
    prep(a);
    bool eof = a.eof(), eop = a.eop(), rst = a.is_reset();
    if (bp)
    {
        T &b = *bp;
        b.rbuffer().produce("zz", 2);
        b.wbuffer().produce("zzz", 3);
        b = std::move(a);
        check(b, fa);
        vf_assert(b.eof() == eof && b.eop() == eop && b.is_reset() == rst, "moving carries the stream's flags");
    }
    else
    {
        T b(std::move(a));
        check(b, fa);
        vf_assert(b.eof() == eof && b.eop() == eop && b.is_reset() == rst, "moving carries the stream's flags");
    }
    if (eof && eop) vf_cover("flags");
}

extern "C" void C05_nstream()
{
    vf_ok("fcntl");
    int fa = vf_int("fa", 0, 1000), fb = vf_int("fb", 1001, 2000);
    nstream a(fa);
    if (vf_pick("assign", 0, 1))
    {
        nstream b(fb);
        stream_move(a, &b, fa);
    }
    else
    {
        stream_move<nstream>(a, nullptr, fa);
    }
    vf_cover("end");
}

extern "C" void C05_nsocktcp()
{
    vf_ok("fcntl");
    int fa = vf_int("fa", 0, 1000), fb = vf_int("fb", 1001, 2000);
    nsocktcp a(fa, family::ipv6);
    if (vf_pick("assign", 0, 1))
    {
        nsocktcp b(fb, family::ipv4);
        stream_move(a, &b, fa);
    }
    else
    {
        stream_move<nsocktcp>(a, nullptr, fa);
    }
    vf_cover("end");
}

extern "C" void C05_peer()
{
    vf_ok("fcntl,connect,inet_pton");
    vf_only("inet_pton", "ok");
    int fa = vf_int("fa", 0, 1000), fb = vf_int("fb", 1001, 2000);
    int port = vf_int("port", 0, 65535);
    nsocktcp a(fa, family::ipv6);
    a.connect("127.0.0.1", port);
    bool assign = vf_pick("assign", 0, 1);
    nsocktcp c(fb, family::ipv4);
    nsocktcp *p = &c;
    if (assign)
    {
        c = std::move(a);
    }
    else
    {
        p = new nsocktcp(std::move(a));
    }
    auto t = p->connpeer();
    vf_assert(std::get<0>(t) == "127.0.0.1" && std::get<1>(t) == port, "moving carries the peer");
    vf_assert(std::get<2>(t) == family::ipv6 && p->sockfamily() == family::ipv6, "moving carries the family");
    if (!assign) delete p;
    vf_cover("end");
}

extern "C" void C05_nsockudp()
{
    vf_ok("fcntl");
    int fa = vf_int("fa", 0, 1000), fb = vf_int("fb", 1001, 2000);
    nsockudp a(fa, family::ipv6);
    prep(a);
    if (vf_pick("assign", 0, 1))
    {
        nsockudp b(fb, family::ipv4);
        b = std::move(a);
        check(b, fa);
        vf_assert(b.sockfamily() == family::ipv6, "moving carries the family");
    }
    else
    {
        nsockudp b(std::move(a));
        check(b, fa);
        vf_assert(b.sockfamily() == family::ipv6, "moving carries the family");
    }
    vf_cover("end");
}

// ---- C06 : error discipline
#define ATTEMPT(...) \
    do { \
        vf_reset(); \
        threw = false; code = 0; \
        try { __VA_ARGS__; } catch (const std::system_error &e) { threw = true; code = e.code().value(); } \
        vf_assert(threw == (vf_nfail() > 0), "the operation throws exactly when a system call failed"); \
        vf_assert(!threw || code == vf_lasterr(), "the exception carries the error number of the failed call"); \
        if (threw) vf_cover("threw"); else vf_cover("ok"); \
    } while (0)

extern "C" void C06_nio()
{
    vf_ok("fcntl");
    bool threw;
    int code;
    nio a(vf_int("fd", 0, 1000));
    vf_ok("");
    switch (vf_pick("op", 0, 2))
    {
    case 0: ATTEMPT(a.set_io_nonblock()); if (!threw) vf_assert(vf_arg("fcntl", -1, 1) == 4, "the blocking mode is changed"); break;
    case 1: ATTEMPT(a.set_io_block()); if (!threw) vf_assert(vf_arg("fcntl", -1, 1) == 4, "the blocking mode is changed"); break;
    default: ATTEMPT(nio b(vf_int("fd2", 1001, 2000))); break;
    }
}

extern "C" void C06_sock()
{
    vf_ok("fcntl");
    bool threw;
    int code;
    nsocktcp s(vf_int("fd", 0, 1000), family::ipv4);
    nsockudp u(vf_int("fd2", 1001, 2000), family::ipv4);
    vf_set("sa_family", 2);
    vf_only("inet_pton", "ok,fail");
    switch (vf_pick("op", 0, 24))
    {
    case 0: ATTEMPT(s.bind("127.0.0.1", 80)); break;
    case 1: ATTEMPT(s.bind(80)); break;
    case 2:
    {
        int n = vf_int("backlog", 1, 1 << 20);
        ATTEMPT(s.listen(n));
        vf_assert(vf_arg("listen", -1, 1) == n, "the queue of pending connections is as long as asked for");
        break;
    }
    case 3: ATTEMPT(s.sockname()); break;
    case 4: ATTEMPT(s.peername()); break;
    case 5: ATTEMPT(s.set_so_reuseaddr()); break;
    case 6: ATTEMPT(s.get_so_reuseaddr()); break;
    case 7: ATTEMPT(s.set_so_reuseport()); break;
    case 8: ATTEMPT(s.get_so_reuseport()); break;
    case 9: ATTEMPT(s.set_so_rcvbuf(1)); break;
    case 10: ATTEMPT(s.get_so_rcvbuf()); break;
    case 11: ATTEMPT(s.set_so_sndbuf(1)); break;
    case 12: ATTEMPT(s.get_so_sndbuf()); break;
    case 13: ATTEMPT(s.set_so_rcvlowat(1)); break;
    case 14: ATTEMPT(s.get_so_rcvlowat()); break;
    case 15: ATTEMPT(s.set_so_sndlowat(1)); break;
    case 16: ATTEMPT(s.get_so_sndlowat()); break;
    case 17: ATTEMPT(s.set_so_keepalive()); break;
    case 18: ATTEMPT(s.get_so_keepalive()); break;
    case 19: ATTEMPT(s.set_so_linger(true, 3)); break;
    case 20: ATTEMPT(s.get_so_linger()); break;
    case 21: ATTEMPT(s.set_tcp_nodelay()); break;
    case 22: ATTEMPT(s.get_tcp_nodelay()); break;
    case 23: ATTEMPT(s.get_so_error()); break;
    default: ATTEMPT(u.set_so_broadcast()); ATTEMPT(u.get_so_broadcast()); break;
    }
}

extern "C" void C06_unix()
{
    vf_ok("fcntl");
    bool threw;
    int code;
    nsocktcp s(vf_int("fd", 0, 1000), family::local);
    ATTEMPT(s.bind_unix("/tmp/x"));
    vf_assert(vf_count("unlink") == 0, "an existing file stays unless its removal is requested");
    if (vf_pick("again", 0, 1))
    {
        vf_ok("unlink");
        vf_reset();
        ATTEMPT(s.bind_unix("/tmp/x", true));
        vf_assert(vf_count("unlink") == 1, "the stale socket file is removed on request");
    }
}

extern "C" void C06_connect()
{
    vf_ok("fcntl,inet_pton");
    vf_only("inet_pton", "ok");
    bool un = vf_pick("unix", 0, 1);
    nsocktcp s(vf_int("fd", 0, 1000), un ? family::local : family::ipv4);
    vf_reset();
    bool ok = un ? s.connect_unix("/tmp/x") : s.connect("127.0.0.1", 80);
    bool failed = vf_failed("connect");
    int err = vf_err("connect", -1);
    vf_assert(vf_count("connect") == 1, "one connection attempt is made");
    vf_assert(ok == (!failed || err == EINPROGRESS), "connect reports a started or completed connection, nothing else");
    vf_assert(!s.is_closed(), "connecting does not close the socket");
    if (ok && failed) vf_cover("inprogress");
    if (!ok) vf_cover("refused");
    vf_reset();
    bool threw = false;
    bool chk = false;
    try
    {
        chk = s.check_connect();
    }
    catch (const std::system_error &)
    {
        threw = true;
    }
    if (!threw)
    {
        vf_assert(vf_arg("getsockopt", -1, 2) == SO_ERROR, "the pending socket error decides whether the connection was made");
        vf_assert(chk == (vf_optval(0) == 0), "the pending socket error decides whether the connection was made");
    }
}

extern "C" void C06_badip()
{
    vf_ok("fcntl");
    vf_only("inet_pton", "bad,ok");
    bool v6 = vf_pick("v6", 0, 1);
    family f = v6 ? family::ipv6 : family::ipv4;
    nsocktcp s(vf_int("fd", 0, 1000), f);
    nsockudp u(vf_int("fd2", 1001, 2000), f);
    u.wbuffer().produce("ab", 2);
    bool threw = false;
    vf_reset();
    int op = vf_pick("op", 0, 2);
    vf_ok("bind,connect,sendto,setsockopt");
    try
    {
        if (op == 0) s.bind("host", 80);
        if (op == 1) s.connect("host", 80);
        if (op == 2) u.send("host", 80);
    }
    catch (const std::logic_error &)
    {
        threw = true;
    }
    bool bad = vf_ret("inet_pton", -1) == 0;
    vf_assert(vf_arg("inet_pton", -1, 0) == (v6 ? 10 : 2), "the address text is parsed for the socket's family");
    vf_assert(threw == bad, "malformed address text is rejected");
    if (bad)
    {
        vf_assert(vf_count("bind") + vf_count("connect") + vf_count("sendto") == 0, "malformed address text is rejected before it is used");
        vf_assert(u.wbuffer().size() == 2, "nothing is consumed by a rejected send");
        vf_cover("bad");
    }
    else
    {
        vf_cover("ok");
    }
}

// ---- C07 : datagrams
extern "C" void C07_recv()
{
    vf_ok("fcntl,inet_ntop");
    int fd = vf_int("fd", 0, 1000);
    bool un = vf_pick("unix", 0, 1);
    bool v6 = !un && vf_pick("v6", 0, 1);
    nsockudp u(fd, un ? family::local : v6 ? family::ipv6 : family::ipv4);
    int n = fill(u.rbuffer(), "have", 0, 2);
    int drop = vf_pick("drop", 0, 1);
    vf_assume(drop < n || drop == 0);
    if (drop)
    {
        u.rbuffer().consume(1);
        --n;
    }
    vf_set("sa_family", v6 ? 10 : 2);
    vf_reset();
    bool threw = false;
    int code = 0;
    try
    {
        auto r = u.recv();
        if (!un)
        {
            vf_assert(std::get<1>(r) == vf_saport(), "the sender's port is reported");
            vf_assert(std::get<0>(r) == "n1" && vf_val("inet_ntop", -1, 0) == vf_saaddr(), "the sender's address is reported");
            vf_assert(std::get<2>(r) == (v6 ? family::ipv6 : family::ipv4), "the sender's family is reported");
            vf_assert(vf_g("salen") >= (v6 ? 28 : 16) && vf_g("salen") <= 128, "the sender's whole address fits the space offered for it");
        }
        else
        {
            vf_assert(std::get<2>(r) == family::local, "the sender's family is reported");
        }
    }
    catch (const std::system_error &e)
    {
        threw = true;
        code = e.code().value();
    }
    vf_assert(vf_count("recvfrom") == 1, "one receive takes one datagram");
    vf_assert(vf_arg("recvfrom", -1, 2) >= sysconfig::udp_buffer_size, "the largest datagram fits the space offered to the kernel");
    vf_assert((vf_arg("recvfrom", -1, 3) & 2) == 0, "the datagram is taken off the queue");
    bool failed = vf_failed("recvfrom");
    vf_assert(threw == failed, "a receive error is thrown, and only that");
    if (failed)
    {
        vf_assert(code == vf_lasterr(), "a receive error is thrown with its errno");
        vf_assert(u.rbuffer().size() == n, "a failed receive leaves the buffer alone");
        vf_cover("threw");
    }
    else
    {
        vf_assert(u.rbuffer().size() == n + vf_ret("recvfrom", -1), "the whole datagram is appended to the read buffer");
        for (int i = 0; i < vf_rcount(fd) && i < 3; ++i)
        {
            vf_assert(u.rbuffer()[n + i] == vf_rbyte(fd, i), "the datagram's bytes are kept in order");
        }
        if (vf_rcount(fd) == 0) vf_cover("empty");
        vf_cover("ok");
    }
    for (int i = 0; i < n; ++i)
    {
        vf_assert(u.rbuffer()[i] == pre(i + drop), "bytes already buffered stay in place");
    }
}

extern "C" void C07_send()
{
    vf_ok("fcntl,inet_pton");
    vf_only("inet_pton", "ok");
    int fd = vf_int("fd", 0, 1000);
    bool un = vf_pick("unix", 0, 1);
    nsockudp u(fd, un ? family::local : family::ipv4);
    int n = fill(u.wbuffer(), "have", 0, 3);
    int drop = vf_pick("drop", 0, 1);
    vf_assume(drop <= n);
    if (drop)
    {
        u.wbuffer().consume(1);
        --n;
    }
    vf_reset();
    bool threw = false;
    int code = 0;
    try
    {
        if (un)
        {
            u.send_unix("/tmp/x");
        }
        else
        {
            u.send("127.0.0.1", 80);
        }
    }
    catch (const std::system_error &e)
    {
        threw = true;
        code = e.code().value();
    }
    bool failed = vf_failed("sendto");
    vf_assert(vf_count("sendto") == 1, "one send makes one datagram");
    vf_assert(vf_arg("sendto", -1, 2) == n, "the datagram is the whole write buffer");
    vf_assert(vf_arg("sendto", -1, 0) == fd, "the datagram goes out on the socket");
    vf_assert(threw == failed, "a send error is thrown, and only that");
    if (failed)
    {
        vf_assert(code == vf_lasterr(), "a send error is thrown with its errno");
        vf_assert(u.wbuffer().size() == n, "a failed send keeps the datagram");
        for (int i = 0; i < n; ++i)
        {
            vf_assert(u.wbuffer()[i] == pre(i + drop), "a failed send keeps the datagram");
        }
        vf_cover("threw");
    }
    else
    {
        vf_assert(vf_wcount(fd) == n, "the datagram is the whole write buffer");
        for (int i = 0; i < n; ++i)
        {
            vf_assert(vf_wbyte(fd, i) == pre(i + drop), "the datagram's bytes are the buffer's, in order");
        }
        vf_assert(u.wbuffer().size() == 0, "a sent datagram leaves the write buffer");
        vf_cover("ok");
    }
}

extern "C" void C07_factory()
{
    vf_ok("fcntl,socket");
    auto u = nio_factory::get_nsockudp(family::ipv4);
    vf_assert(vf_arg("socket", -1, 1) == 2 && vf_arg("socket", -1, 0) == 2, "a datagram socket of the requested family is created");
    vf_assert(u->rbuffer().size() == 0 && u->wbuffer().size() == 0, "a new socket has nothing buffered");
    vf_cover("end");
}

// ---- C08 : socket addresses
static int famno(family f)
{
    return f == family::ipv4 ? 2 : f == family::ipv6 ? 10 : 1;
}

static void check_addr(const char *call, family f, int port, bool any)
{
    int len = call[0] == 's' ? 5 : 2;
    vf_assert(vf_count(call) == 1, "the address is used once");
    vf_assert(vf_val(call, -1, 0) == famno(f), "the address carries the socket's family");
    vf_assert(vf_val(call, -1, 1) == htons(port), "the port is passed in network byte order");
    vf_assert(vf_arg(call, -1, len) == (f == family::ipv4 ? 16 : 28), "the address length matches the family");
    vf_assert(vf_val(call, -1, 3) == 1, "every byte of the address is initialised");
    if (any)
    {
        vf_assert(f == family::ipv4 ? vf_val(call, -1, 2) == 0 : vf_val(call, -1, 5) == 0, "no address text means any address");
    }
    else
    {
        vf_assert(vf_arg("inet_pton", -1, 0) == famno(f), "the address text is parsed for the socket's family");
        vf_assert((char *)vf_argp("inet_pton", -1, 2) - (char *)vf_argp(call, -1, len - 1) == (f == family::ipv4 ? 4 : 8), "the parsed address is the one that is used");
    }
    vf_cover(call);
}

extern "C" void C08_inet()
{
    vf_ok("*");
    vf_only("inet_pton", "ok");
    family f = vf_pick("v6", 0, 1) ? family::ipv6 : family::ipv4;
    int port = vf_int("port", 0, 65535);
    int fd = vf_int("fd", 0, 1000);
    int op = vf_pick("op", 0, 4);
    if (op == 4)
    {
        nsockudp u(fd, f);
        u.wbuffer().produce("ab", 2);
        vf_reset();
        u.send(std::string("127.0.0.1"), port);
        check_addr("sendto", f, port, false);
    }
    else
    {
        nsocktcp s(fd, f);
        vf_reset();
        if (op == 0) s.bind("127.0.0.1", port);
        if (op == 1) s.bind(port);
        if (op == 2) s.connect("127.0.0.1", port);
        if (op == 3) s.connect(std::string("127.0.0.1"), port);
        check_addr(op < 2 ? "bind" : "connect", f, port, op == 1);
        if (op < 2)
        {
            bool reuse = false;
            for (int i = 0; i < vf_count("setsockopt"); ++i)
            {
                if (vf_arg("setsockopt", i, 2) == SO_REUSEADDR && vf_val("setsockopt", i, 0) != 0) reuse = true;
            }
            vf_assert(reuse, "a restarted server can bind its address again");
        }
        else
        {
            auto t = s.connpeer();
            vf_assert(std::get<0>(t) == "127.0.0.1" && std::get<1>(t) == port && std::get<2>(t) == f, "the target of connect is remembered as the peer");
        }
    }
}

extern "C" void C08_unix()
{
    vf_ok("*");
    int fd = vf_int("fd", 0, 1000);
    int op = vf_pick("op", 0, 2);
    const char *path = (const char *)vf_cstr("path", 0, 300);
    int n = vf_cstrlen(path);
    bool threw = false;
    const char *call = op == 0 ? "bind" : op == 1 ? "connect" : "sendto";
    vf_reset();
    try
    {
        if (op == 2)
        {
            nsockudp u(fd, family::local);
            u.wbuffer().produce("ab", 2);
            u.send_unix(path);
        }
        else
        {
            nsocktcp s(fd, family::local);
            if (op == 0) s.bind_unix(path);
            if (op == 1) s.connect_unix(path);
        }
    }
    catch (const std::system_error &)
    {
        threw = true;
    }
    catch (const std::logic_error &)
    {
        threw = true;
    }
    if (threw)
    {
        vf_assert(n >= 108, "a path that fits is accepted");
        vf_assert(vf_count(call) == 0, "a path that does not fit is rejected, not truncated");
        vf_cover("toolong");
    }
    else
    {
        int len = op == 2 ? 5 : 2;
        vf_assert(vf_count(call) == 1, "the address is used once");
        vf_assert(vf_val(call, -1, 0) == 1, "the address carries the socket's family");
        vf_assert(vf_val(call, -1, 4) == n, "the whole path is used");
        vf_assert(vf_arg(call, -1, len) >= 2 + n && vf_arg(call, -1, len) <= 110, "the address length covers the path and stays inside the address");
        vf_cover("ok");
    }
}

extern "C" void C08_names()
{
    vf_ok("*");
    int fd = vf_int("fd", 0, 1000);
    bool v6 = vf_pick("v6", 0, 1);
    nsocktcp s(fd, v6 ? family::ipv6 : family::ipv4);
    vf_set("sa_family", v6 ? 10 : 2);
    bool peer = vf_pick("peer", 0, 1);
    vf_reset();
    auto t = peer ? s.peername() : s.sockname();
    vf_assert(vf_count("getsockname") == !peer && vf_count("getpeername") == peer, "the local or the remote address is asked for, as named");
    vf_assert(vf_g("salen") >= (v6 ? 28 : 16) && vf_g("salen") <= 128, "the whole address fits the space offered for it");
    vf_assert(std::get<1>(t) == vf_saport(), "the port is reported in host byte order");
    vf_assert(std::get<2>(t) == (v6 ? family::ipv6 : family::ipv4), "the family of the address is reported");
    vf_assert(vf_arg("inet_ntop", -1, 0) == (v6 ? 10 : 2), "the address is rendered for its family");
    vf_assert(vf_val("inet_ntop", -1, 0) == vf_saaddr(), "the address rendered is the one the kernel returned");
    vf_assert(std::get<0>(t) == "n1", "the address text is reported");
    vf_assert(vf_arg("inet_ntop", -1, 3) >= (v6 ? 46 : 16), "the address text fits its buffer");
    vf_cover("end");
}

extern "C" void C08_namefail()
{
    vf_ok("fcntl");
    int fd = vf_int("fd", 0, 1000);
    nsocktcp s(fd, family::ipv4);
    vf_set("sa_family", vf_int("fam", 0, 100));
    bool peer = vf_pick("peer", 0, 1);
    vf_reset();
    bool logic = false, sys = false;
    try
    {
        peer ? s.peername() : s.sockname();
    }
    catch (const std::system_error &e)
    {
        sys = true;
        vf_assert(vf_nfail() > 0 && e.code().value() == vf_lasterr(), "the exception carries the error number of the failed call");
    }
    catch (const std::logic_error &)
    {
        logic = true;
        vf_cover("unknown");
    }
    vf_assert(!logic || vf_nfail() == 0, "a system failure is not reported as misuse");
    vf_assert(sys == (vf_nfail() > 0), "a failed query is thrown");
    if (!sys && !logic)
    {
        vf_assert(vf_int("fam", 0, 100) == 2 || vf_int("fam", 0, 100) == 10, "an address of an unknown family is rejected");
    }
}

extern "C" void C08_unixpeer()
{
    vf_ok("*");
    nsocktcp s(vf_int("fd", 0, 1000), family::local);
    s.bind_unix("/tmp/x");
    auto t = s.sockname();
    vf_assert(std::get<0>(t) == "/tmp/x" && std::get<2>(t) == family::local, "a unix socket reports its path");
    vf_only("accept", "ok");
    int n = vf_pick("n", 1, 2);
    auto v = s.accept(n);
    vf_assert((int)v.size() == n, "a connection is accepted");
    for (int i = 0; i < n; ++i)
    {
        auto p = v[i]->connpeer();
        vf_assert(std::get<0>(p) == "/tmp/x" && std::get<2>(p) == family::local, "an accepted unix connection reports its path");
        auto q = v[i]->peername();
        vf_assert(std::get<0>(q) == "/tmp/x" && std::get<2>(q) == family::local, "an accepted unix connection reports its path");
    }
    vf_cover("end");
}

extern "C" void C08_unixconnect()
{
    vf_ok("*");
    nsocktcp s(vf_int("fd", 0, 1000), family::local);
    vf_assert(s.connect_unix("/tmp/y"), "a connection is made");
    auto p = s.connpeer();
    vf_assert(std::get<0>(p) == "/tmp/y" && std::get<2>(p) == family::local, "the target of connect is remembered as the peer");
    auto q = s.peername();
    vf_assert(std::get<0>(q) == "/tmp/y" && std::get<2>(q) == family::local, "the target of connect is remembered as the peer");
    vf_cover("end");
}

extern "C" void C08_factory()
{
    vf_ok("*");
    family f = vf_pick("f", 0, 2) == 0 ? family::ipv4 : vf_pick("f2", 0, 1) ? family::ipv6 : family::local;
    bool udp = vf_pick("udp", 0, 1);
    vf_reset();
    if (udp)
    {
        auto u = nio_factory::get_nsockudp(f);
        vf_assert(u->sockfamily() == f, "the socket has the requested family");
    }
    else
    {
        auto u = nio_factory::get_nsocktcp(f);
        vf_assert(u->sockfamily() == f, "the socket has the requested family");
    }
    vf_assert(vf_arg("socket", -1, 0) == famno(f), "the socket has the requested family");
    vf_assert((vf_arg("socket", -1, 1) & 15) == (udp ? 2 : 1), "the socket has the requested type");
    vf_assert(vf_count("fcntl") == 2 && (vf_arg("fcntl", -1, 2) & 2048) != 0, "the socket is non-blocking");
    vf_cover("end");
}

// ---- C09 : socket options
#define BOOLOPT(obj, name, level, opt) \
    do { \
        vf_reset(); \
        bool on = vf_bool("on"); \
        obj.set_##name(on); \
        vf_assert(vf_count("setsockopt") == 1 && vf_arg("setsockopt", -1, 0) == fd && vf_arg("setsockopt", -1, 1) == level && vf_arg("setsockopt", -1, 2) == opt && vf_arg("setsockopt", -1, 4) == 4, "set_" #name " sets its own option"); \
        vf_assert((vf_val("setsockopt", -1, 0) != 0) == on, "set_" #name " passes the requested value"); \
        bool r = obj.get_##name(); \
        vf_assert(vf_count("getsockopt") == 1 && vf_arg("getsockopt", -1, 0) == fd && vf_arg("getsockopt", -1, 1) == level && vf_arg("getsockopt", -1, 2) == opt, "get_" #name " reads its own option"); \
        vf_assert(r == (vf_optval(0) != 0), "get_" #name " reports the value the kernel returned"); \
    } while (0)
#define INTOPT(obj, name, level, opt) \
    do { \
        vf_reset(); \
        int v = vf_int("v", 0, 1 << 30); \
        obj.set_##name(v); \
        vf_assert(vf_count("setsockopt") == 1 && vf_arg("setsockopt", -1, 0) == fd && vf_arg("setsockopt", -1, 1) == level && vf_arg("setsockopt", -1, 2) == opt && vf_arg("setsockopt", -1, 4) == 4, "set_" #name " sets its own option"); \
        vf_assert(vf_val("setsockopt", -1, 0) == v, "set_" #name " passes the requested value"); \
        int r = obj.get_##name(); \
        vf_assert(vf_count("getsockopt") == 1 && vf_arg("getsockopt", -1, 0) == fd && vf_arg("getsockopt", -1, 1) == level && vf_arg("getsockopt", -1, 2) == opt, "get_" #name " reads its own option"); \
        vf_assert(r == vf_optval(0), "get_" #name " reports the value the kernel returned"); \
    } while (0)

extern "C" void C09_options()
{
    vf_ok("*");
    int fd = vf_int("fd", 0, 1000);
    nsocktcp s(fd, family::ipv4);
    switch (vf_pick("op", 0, 10))
    {
    case 0: BOOLOPT(s, so_reuseaddr, SOL_SOCKET, SO_REUSEADDR); break;
    case 1: BOOLOPT(s, so_reuseport, SOL_SOCKET, SO_REUSEPORT); break;
    case 2: INTOPT(s, so_rcvbuf, SOL_SOCKET, SO_RCVBUF); break;
    case 3: INTOPT(s, so_sndbuf, SOL_SOCKET, SO_SNDBUF); break;
    case 4: INTOPT(s, so_rcvlowat, SOL_SOCKET, SO_RCVLOWAT); break;
    case 5: INTOPT(s, so_sndlowat, SOL_SOCKET, SO_SNDLOWAT); break;
    case 6: BOOLOPT(s, so_keepalive, SOL_SOCKET, SO_KEEPALIVE); break;
    case 7: BOOLOPT(s, tcp_nodelay, 6, 1); break;
    case 8:
    {
        nsockudp u(vf_int("fd2", 1001, 2000), family::ipv4);
        int fd = vf_int("fd2", 1001, 2000);
        BOOLOPT(u, so_broadcast, SOL_SOCKET, SO_BROADCAST);
        break;
    }
    case 9:
    {
        vf_reset();
        bool on = vf_bool("on");
        int v = vf_int("v", 0, 1 << 30);
        s.set_so_linger(on, v);
        vf_assert(vf_count("setsockopt") == 1 && vf_arg("setsockopt", -1, 2) == SO_LINGER && vf_arg("setsockopt", -1, 4) == 8, "set_so_linger sets its own option");
        vf_assert((vf_val("setsockopt", -1, 0) != 0) == on && vf_val("setsockopt", -1, 1) == v, "set_so_linger passes the requested values");
        auto r = s.get_so_linger();
        vf_assert(vf_arg("getsockopt", -1, 2) == SO_LINGER, "get_so_linger reads its own option");
        vf_assert(r.first == (vf_optval(0) != 0) && r.second == vf_optval(1), "get_so_linger reports the values the kernel returned");
        break;
    }
    default:
    {
        vf_reset();
        int r = s.get_so_error();
        vf_assert(vf_arg("getsockopt", -1, 2) == SO_ERROR && r == vf_optval(0), "get_so_error reports the pending error");
        vf_cover("end");
    }
    }
}

extern "C" void C09_shutdown()
{
    vf_ok("fcntl");
    int fd = vf_int("fd", 0, 1000);
    nsocktcp s(fd, family::ipv4);
    int m = vf_pick("mode", 0, 2);
    vf_reset();
    s.shutdown(m == 0 ? shut_mode::shut_rd : m == 1 ? shut_mode::shut_wr : shut_mode::shut_rdwr);
    vf_assert(vf_count("shutdown") == 1 && vf_arg("shutdown", -1, 0) == fd && vf_arg("shutdown", -1, 1) == m, "shutdown closes exactly the requested directions");
    vf_assert(vf_closes(fd) == 0 && !s.is_closed(), "shutdown does not close the descriptor");
    vf_cover("end");
}

extern "C" void C09_blocking()
{
    vf_ok("fcntl");
    int fd = vf_int("fd", 0, 1000);
    nio s(fd);
    vf_assert(vf_arg("fcntl", -1, 0) == fd && vf_arg("fcntl", -1, 1) == 4 && vf_arg("fcntl", -1, 2) == (vf_ret("fcntl", -2) | 2048), "a new descriptor is made non-blocking, its other flags kept");
    vf_reset();
    s.set_io_block();
    vf_assert(vf_arg("fcntl", -1, 0) == fd && vf_arg("fcntl", -1, 1) == 4 && vf_arg("fcntl", -1, 2) == (vf_ret("fcntl", -2) & ~2048L), "set_io_block clears only the non-blocking flag");
    vf_cover("end");
}
