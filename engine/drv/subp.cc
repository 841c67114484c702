// Subprocesses.
#include "cppev/subprocess.h"
#include <errno.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <system_error>
#include <tuple>
#include "cppev/sysconfig.h"
#include "vf.h"

using namespace cppev;

// ---- C29 : what the subprocess gets
static const char *const g_cmd[] = {"prog", "prog -x", "/bin/prog -a bb c", "./dir/prog x", "dir/prog"};
static const char *const g_file[] = {"prog", "prog", "/bin/prog", "./dir/prog", "dir/prog"};
static const char *const g_args[][4] = {{"prog"}, {"prog", "-x"}, {"prog", "-a", "bb", "c"}, {"prog", "x"}, {"prog"}};
static const int g_nargs[] = {1, 2, 4, 2, 1};
static const char *const g_vars[] = {"A=1", "BB=2 3"};
static int g_which, g_nenv;

static int ends(int obj)
{
    return obj & 1;
}

extern "C" void vfd_exec(const char *file, char *const *argv, char *const *envp)
{
    vf_assert(vf_child(), "only the child becomes the program");
    vf_assert(strcmp(file, g_file[g_which]) == 0, "the program is the one that was named");
    for (int i = 0; i < g_nargs[g_which]; ++i)
    {
        vf_assert(argv[i] != nullptr && strcmp(argv[i], g_args[g_which][i]) == 0, "the program gets the arguments in order");
    }
    vf_assert(argv[g_nargs[g_which]] == nullptr, "the arguments are terminated");
    for (int i = 0; i < g_nenv; ++i)
    {
        vf_assert(envp[i] != nullptr && strcmp(envp[i], g_vars[i]) == 0, "the program gets the environment in order");
    }
    vf_assert(envp[g_nenv] == nullptr, "the environment is terminated");
    int in = vf_fdobj(0), out = vf_fdobj(1), err = vf_fdobj(2);
    vf_assert(in >= 10 && !ends(in) && out >= 10 && ends(out) && err >= 10 && ends(err) && in / 2 != out / 2 && out / 2 != err / 2 && in / 2 != err / 2,
        "standard input, output and error are three pipes, in their direction");
    vf_assert(!vf_nonblock(in) && !vf_nonblock(out) && !vf_nonblock(err), "the program finds blocking descriptors");
    vf_assert(vf_fdcount() == 3, "the program inherits no other end of a pipe");
    vf_set("c.in", in);
    vf_set("c.out", out);
    vf_set("c.err", err);
    vf_set("c.how", 1);
    vf_cover("exec");
}

extern "C" void vfd_exit(int code, int quick)
{
    vf_assert(vf_failed("exec_failed"), "the child ends early only when the program cannot be run");
    vf_assert(code > 0 && code < 256, "a program that cannot be run ends with a failure");
    vf_assert(quick, "the child does not run the exit functions of its parent");
    vf_set("c.how", 2);
    vf_cover("cannot run");
}

static void spawn(int mask)
{
    vf_fdtab(mask);
    int open = vf_fdcount();
    vf_mark("open descriptors", mask);
    vf_fork();
    sysconfig::buffer_io_step = 4;
    vf_ok("fcntl,dup2");             // an fcntl of a descriptor just made does not fail
    vf_set("c.how", 0);
    std::vector<std::string> env;
    for (int i = 0; i < g_nenv; ++i)
    {
        env.push_back(g_vars[i]);
    }
    bool threw = false;
    int code = 0;
    try
    {
        subp_open s(g_cmd[g_which], env);
        vf_assert(vf_count("fork") == 1 && s.pid() == vf_ret("fork", -1) && s.pid() > 0, "the process started is the one reported");
        vf_assert(!vf_child(), "the child never returns to the caller");
        vf_assert(vf_nfail() == 0, "a failure is thrown");
        if (vf_g("c.how") == 1)
        {
            vf_reset();
            vf_only("write", "data");
            vf_only("read", "eof");
            s.communicate("x", 1);
            int w = vf_count("write") ? vf_fdobj(vf_arg("write", 0, 0)) : -1;
            vf_assert(w == vf_g("c.in") + 1, "input goes to the standard input of the program");
            vf_assert(vf_nonblock(w), "giving input never blocks the caller");
            bool out = false, err = false;
            for (int i = 0; i < vf_count("read"); ++i)
            {
                int r = vf_fdobj(vf_arg("read", i, 0));
                vf_assert(vf_nonblock(r), "fetching output never blocks the caller");
                out = out || r == vf_g("c.out") - 1;
                err = err || r == vf_g("c.err") - 1;
            }
            vf_assert(out && err, "output is fetched from the standard output and error of the program");
            vf_cover("wired");
        }
    }
    catch (const std::system_error &e)
    {
        threw = true;
        code = e.code().value();
    }
    vf_assert(!vf_child(), "the child never returns to the caller");
    vf_assert(vf_fdcount() == open, "no descriptor stays open");
    if (threw)
    {
        vf_assert(code == vf_lasterr() && vf_nfail() == 1, "the error of the failing call is thrown");
        vf_assert(vf_count("fork") == 0 || vf_failed("fork"), "a failed start leaves no process");
        vf_cover("throws");
    }
    vf_cover("end");
}

// every set of standard descriptors the caller may have left open
extern "C" void C29_wiring()
{
    g_which = 1;
    g_nenv = 1;
    spawn(vf_pick("open descriptors", 0, 7));
}

// commands and environments
extern "C" void C29_program()
{
    g_which = vf_pick("command", 0, 4);
    g_nenv = vf_pick("variables", 0, 2);
    spawn(7);
}

// ---- C30 : a subprocess in its environment
// The program: copies its input to standard output, writes two bytes to standard error and three more bytes to
// standard output, then exits.  Its pipes hold two bytes.  It goes on at the calls of the analysed code.
static const int PID = 77;
static int g_pipes;                     // first object of stdin, stdout, stderr pipe
static char g_in[8], g_out[8], g_err[8];            // what passed through each pipe so far
static int g_inw, g_inr, g_outw, g_outr, g_errw, g_errr;
static int g_todo_in, g_todo_out, g_todo_err;       // what the program still wants to do
static int g_steps;                                 // free progress left
static bool g_exited, g_reaped;
static const char IN[] = "uv\0xyz";
static int g_status, g_signal, g_nsleep, g_waits;

static bool progress()
{
    if (g_exited)
    {
        return false;
    }
    if (g_todo_in && g_inr < g_inw && g_outw - g_outr < 2)
    {
        g_out[g_outw++] = g_in[g_inr++];
        --g_todo_in;
        return true;
    }
    if (g_todo_in)
    {
        return false;
    }
    if (g_todo_err && g_errw - g_errr < 2)
    {
        g_err[g_errw] = (char)('p' + g_errw);
        ++g_errw;
        --g_todo_err;
        return true;
    }
    if (g_todo_out && g_outw - g_outr < 2)
    {
        g_out[g_outw] = (char)('a' + g_outw);
        ++g_outw;
        --g_todo_out;
        return true;
    }
    if (!g_todo_in && !g_todo_out && !g_todo_err)
    {
        g_exited = true;
        return true;
    }
    return false;
}

// the program runs on, or not yet
static void goes_on()
{
    int n = vf_pick("progress", 0, g_steps);
    for (int i = 0; i < n; ++i)
    {
        vf_assume(progress());
        --g_steps;
    }
}

extern "C" long vfd_read(int fd, char *p, unsigned long n)
{
    int o = vf_fdobj(fd);
    vf_assert(vf_nonblock(o), "fetching output never blocks the caller");
    goes_on();
    long k = 0;
    if (o == g_pipes + 2)
    {
        while ((unsigned long)k < n && g_outr < g_outw)
        {
            p[k++] = g_out[g_outr++];
        }
    }
    else if (o == g_pipes + 4)
    {
        while ((unsigned long)k < n && g_errr < g_errw)
        {
            p[k++] = g_err[g_errr++];
        }
    }
    else
    {
        vf_assert(false, "only output of the program is read");
    }
    if (k == 0 && !g_exited)
    {
        errno = EAGAIN;
        return -1;
    }
    return k;
}

extern "C" long vfd_write(int fd, const char *p, unsigned long n)
{
    int o = vf_fdobj(fd);
    vf_assert(o == g_pipes + 1, "only input of the program is written");
    vf_assert(vf_nonblock(o), "giving input never blocks the caller");
    goes_on();
    if (g_exited)
    {
        bool reader = false;
        for (int i = 3; i < 16; ++i)
        {
            reader |= vf_fdobj(i) == g_pipes;
        }
        vf_assert(reader || vf_g("sigpipe"), "giving input to an ended subprocess does not end the caller");
    }
    long k = 0;
    while ((unsigned long)k < n && g_inw - g_inr < 2)
    {
        g_in[g_inw++] = p[k++];
    }
    if (k == 0 && n)
    {
        errno = EAGAIN;
        return -1;
    }
    return k;
}

extern "C" int vfd_waitpid(int pid, int *status, int options)
{
    vf_assert(pid == PID, "the own subprocess is waited for");
    vf_assert(!g_reaped, "a subprocess is reaped once");
    goes_on();
    ++g_waits;
    if ((options & WUNTRACED) && !g_exited && vf_coin("stopped"))
    {
        if (status)
        {
            *status = 0x137f;
        }
        return pid;
    }
    if (!(options & WNOHANG))
    {
        while (progress())
        {
        }
        vf_assert(g_exited, "waiting does not keep the subprocess from writing its output");
    }
    if (!g_exited)
    {
        return 0;
    }
    g_reaped = true;
    if (status)
    {
        *status = g_status;
    }
    return pid;
}

extern "C" int vfd_kill(int pid, int sig)
{
    vf_assert(pid == PID, "the own subprocess is signalled");
    vf_assert(!g_reaped, "a process id that was given back is never signalled");
    g_signal = sig;
    return 0;
}

extern "C" int vfd_nanosleep(const struct timespec *, struct timespec *)
{
    ++g_nsleep;
    vf_assert(g_nsleep < 9, "waiting ends once the subprocess ended");
    vf_assume(g_nsleep < 9);
    progress();
    return 0;
}

static void world(int in, int out, int err, int steps, int status)
{
    vf_kernel();
    vf_set("unroll", 40);
    vf_fdtab(7);
    sysconfig::buffer_io_step = 4;
    vf_ok("pipe,fcntl,dup2,execvp,execv,execve,execvpe");
    vf_only("fork", "ok");
    vf_set("forkpid", PID);
    memset(g_in, 0, sizeof g_in);
    memset(g_out, 0, sizeof g_out);
    memset(g_err, 0, sizeof g_err);
    g_inw = g_inr = g_outw = g_outr = g_errw = g_errr = 0;
    g_exited = g_reaped = false;
    g_signal = g_nsleep = g_waits = 0;
    g_todo_in = in;
    g_todo_out = out;
    g_todo_err = err;
    g_steps = steps;
    g_status = status;
    vf_hook("read,write,waitpid,kill");
    vf_fork();
    g_which = 0;
    g_nenv = 0;
}

static void output(subp_open &s, int in)
{
    const char *o = s.stdout(), *e = s.stderr();
    for (int i = 0; i < g_outw; ++i)
    {
        vf_assert(o[i] == g_out[i], "all output is kept, in order");
    }
    vf_assert(o[g_outw] == 0 && g_outr == g_outw, "nothing but the output is kept");
    for (int i = 0; i < g_errw; ++i)
    {
        vf_assert(e[i] == g_err[i], "all error output is kept, in order");
    }
    vf_assert(e[g_errw] == 0 && g_errr == g_errw, "nothing but the error output is kept");
    for (int i = 0; i < in; ++i)
    {
        vf_assert(g_in[i] == IN[i], "the program gets the input in order");
    }
    vf_assert(g_inw == in, "the program gets all of the input once");
}

static void reaped(subp_open &s)
{
    vf_assert(g_exited && g_reaped, "waiting ends only once the subprocess ended");
    vf_assert(s.returncode() == g_status, "the exit status is the one of the subprocess");
    int n = g_waits;
    vf_assert(s.poll() && s.poll(), "an ended subprocess stays ended");
    vf_assert(g_waits == n, "an ended subprocess is not waited for again");
    vf_assert(s.returncode() == g_status, "the exit status is kept");
}

// output while waiting
extern "C" void C30_wait()
{
    const int outs[] = {0, 3, 0, 3, 1}, errs[] = {0, 0, 3, 2, 1};
    int k = vf_pick("output", 0, 4);
    world(0, outs[k], errs[k], 2, k * 256);
    subp_open s("prog", {});
    g_pipes = vf_g("c.in");
    vf_assert(vf_g("c.out") == g_pipes + 3 && vf_g("c.err") == g_pipes + 5, "the program has three pipes");
    s.wait(std::chrono::milliseconds(1));
    reaped(s);
    output(s, 0);
    vf_cover("end");
}

extern "C" void C30_input()
{
    int in = vf_pick("input", 0, 1) ? 5 : 2;
    world(in, 1, 0, in == 2 ? 2 : 1, 0);
    subp_open s("prog", {});
    g_pipes = vf_g("c.in");
    int first = vf_pick("first", 0, 2) * 2;
    vf_assume(first <= in);
    if (first)
    {
        s.communicate(IN, first);
    }
    if (first < in)
    {
        if (first)
        {
            s.communicate(std::string(IN + first, in - first));
        }
        else
        {
            s.communicate(IN + first, in - first);
        }
    }
    s.wait(std::chrono::milliseconds(1));
    reaped(s);
    output(s, in);
    vf_cover("end");
}

// a program that ends without reading its input
extern "C" void C30_ignored()
{
    world(0, 1, 0, 3, 256);
    subp_open s("prog", {});
    g_pipes = vf_g("c.in");
    s.communicate("abc", 3);
    s.communicate("def", 3);
    s.wait(std::chrono::milliseconds(1));
    reaped(s);
    vf_assert(s.stdout()[0] == 'a' && s.stdout()[1] == 0, "all output is kept, in order");
    vf_cover("end");
}

extern "C" void C30_exec_cmd()
{
    world(0, 3, 1, 2, vf_pick("status", 0, 1) * 512);
    g_pipes = 10;
    auto r = subprocess::exec_cmd("prog");
    vf_assert(g_exited && g_reaped, "waiting ends only once the subprocess ended");
    vf_assert(std::get<0>(r) == g_status, "the exit status is the one of the subprocess");
    vf_assert(strcmp(std::get<1>(r).c_str(), "abc") == 0, "all output is returned");
    vf_assert(strcmp(std::get<2>(r).c_str(), "p") == 0, "all error output is returned");
    vf_assert(vf_fdcount() == 3, "no descriptor stays open");
    vf_cover("end");
}

extern "C" void C30_poll()
{
    world(0, 1, 0, 3, 256);
    subp_open s("prog", {});
    g_pipes = vf_g("c.in");
    for (int i = 0; i < 3; ++i)
    {
        bool done = s.poll();
        vf_assert(done == g_reaped, "poll() tells whether the subprocess ended");
        vf_assert(!done || s.returncode() == 256, "the exit status is the one of the subprocess");
        if (!done)
        {
            vf_cover("runs");
        }
    }
    if (g_reaped)
    {
        s.communicate();
        output(s, 0);
        vf_cover("end");
    }
}

extern "C" void C30_signals()
{
    world(0, 0, 0, 1, 15);
    subp_open a("prog", {});
    g_pipes = vf_g("c.in");
    subp_open s(std::move(a));
    bool done = s.poll();
    int how = vf_pick("how", 0, 2);
    bool threw = false;
    int code = 0;
    try
    {
        if (how == 0)
        {
            s.terminate();
        }
        else if (how == 1)
        {
            s.kill();
        }
        else
        {
            s.send_signal(SIGHUP);
        }
    }
    catch (const std::system_error &e)
    {
        threw = true;
        code = e.code().value();
    }
    if (!done)
    {
        vf_assert(!threw && g_signal == (how == 0 ? SIGTERM : how == 1 ? SIGKILL : SIGHUP), "the subprocess gets the signal that was asked for");
        vf_cover("signalled");
    }
    else
    {
        vf_assert(g_signal == 0, "a process id that was given back is never signalled");
        vf_assert(!threw || code == ESRCH, "the error of a missing process is thrown");
        vf_cover("gone");
    }
    vf_cover("end");
}

// failures of waiting, signalling, reading and writing
extern "C" void C30_errors()
{
    vf_fdtab(7);
    vf_ok("pipe,fcntl,dup2,execvp,execv,execve,execvpe");
    vf_only("fork", "ok");
    vf_fork();
    g_which = 0;
    g_nenv = 0;
    sysconfig::buffer_io_step = 2;
    subp_open s("prog", {});
    vf_reset();
    bool threw = false;
    int code = 0, how = vf_pick("how", 0, 4);
    if (how == 2)
    {
        vf_script("read", "fail:5");
    }
    else if (how == 3)
    {
        vf_script("read", "eof,fail:5");
    }
    else if (how == 4)
    {
        vf_script("read", "eof,eof");
        vf_script("write", "fail:5");
    }
    try
    {
        if (how == 0)
        {
            bool done = s.poll();
            vf_assert(vf_count("waitpid") == 1 && vf_arg("waitpid", 0, 0) == s.pid() && !vf_failed("waitpid"), "the own subprocess is waited for");
            vf_assert(done == (vf_ret("waitpid", -1) != 0), "poll() tells whether the subprocess ended");
        }
        else if (how == 1)
        {
            s.send_signal(SIGUSR1);
            vf_assert(vf_count("kill") == 1 && vf_arg("kill", 0, 0) == s.pid() && vf_arg("kill", 0, 1) == SIGUSR1 && !vf_failed("kill"), "the subprocess gets the signal that was asked for");
        }
        else
        {
            s.communicate("x", 1);
        }
    }
    catch (const std::system_error &e)
    {
        threw = true;
        code = e.code().value();
    }
    if (threw)
    {
        vf_assert(vf_nfail() >= 1 && code == vf_lasterr(), "the error of the failing call is thrown");
        vf_cover("throws");
    }
    vf_assert(threw == (vf_nfail() > 0), "a failure is thrown");
    vf_cover("end");
}
