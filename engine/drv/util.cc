// Strings, signals, symbols, time.
#include "cppev/utils.h"
#include "cppev/dynamic_loader.h"
#include <errno.h>
#include <signal.h>
#include <string.h>
#include <stdexcept>
#include <system_error>
#include "vf.h"

using namespace cppev;

// ---- C31 : strings of arbitrary characters
static char g_chr[8];

static std::string anything(const char *name, int n)
{
    for (int i = 0; i < n; ++i)
    {
        g_chr[i] = (char)vf_any(name, -128, 127);
    }
    return std::string(g_chr, n);
}

static bool at(const std::string &s, int p, const std::string &x)
{
    if (p < 0 || p + x.size() > s.size())
    {
        return false;
    }
    for (size_t i = 0; i < x.size(); ++i)
    {
        if (s[p + i] != x[i])
        {
            return false;
        }
    }
    return true;
}

static void parts_of(const std::string &s, const std::string &sep, const std::vector<std::string> &v)
{
    int pos = 0;
    vf_assert(v.size() >= 1, "there is at least one part");
    for (size_t k = 0; k < v.size(); ++k)
    {
        int len = v[k].size();
        vf_assert(pos + len <= (int)s.size(), "the parts and separators make up the string");
        vf_assume(pos + len <= (int)s.size());
        for (int j = 0; j < len; ++j)
        {
            vf_assert(v[k][j] == s[pos + j], "a part has the characters of the string");
            vf_assert(!at(s, pos + j, sep), "no separator is overlooked");
        }
        pos += len;
        if (k + 1 < v.size())
        {
            vf_assert(at(s, pos, sep), "parts are cut at separators");
            pos += sep.size();
        }
    }
    vf_assert(pos == (int)s.size(), "the parts and separators make up the string");
}

extern "C" void C31_split()
{
    vf_set("unroll", 40);
    int m = vf_pick("separator length", 1, 3);
    int n = vf_pick("length", 0, vf_deep() ? 7 : m == 1 ? 5 : 6);
    std::string s = anything("c", n);
    std::string sep = anything("s", m);
    parts_of(s, sep, split(s, sep));
    vf_cover("end");
}

extern "C" void C31_join()
{
    vf_set("unroll", 40);
    int k = vf_pick("parts", 0, 3), m = vf_pick("separator length", 0, 2);
    std::vector<std::string> v;
    for (int i = 0; i < k; ++i)
    {
        v.push_back(anything("c", vf_pick("length", 0, 2)));
    }
    std::string sep = anything("s", m);
    std::string r = join(v, sep);
    size_t pos = 0;
    for (int i = 0; i < k; ++i)
    {
        vf_assert(at(r, pos, v[i]), "the parts are put together in order");
        pos += v[i].size();
        if (i + 1 < k)
        {
            vf_assert(at(r, pos, sep), "the separator is put between the parts");
            pos += m;
        }
    }
    vf_assert(r.size() == pos, "nothing else is put");
    vf_cover("end");
}

extern "C" void C31_strip()
{
    vf_set("unroll", 40);
    int m = vf_pick("strip length", 1, 2);
    int n = vf_pick("length", 0, vf_deep() ? 6 : 5);
    int how = vf_pick("how", 0, 2);
    std::string s = anything("c", n);
    std::string x = anything("s", m);
    std::string r = how == 0 ? strip(s, x) : how == 1 ? lstrip(s, x) : rstrip(s, x);
    int from = 0, to = n;
    while (how != 2 && to - from >= m && at(s, from, x))
    {
        from += m;
    }
    while (how != 1 && to - from >= m && at(s, to - m, x))
    {
        to -= m;
    }
    vf_assert((int)r.size() == to - from, "exactly the repetitions at the ends are taken off");
    vf_assume((int)r.size() == to - from);
    vf_assert(at(s, from, r), "the rest is kept");
    vf_cover("end");
}

extern "C" void C31_refuse()
{
    int how = vf_pick("how", 0, 3);
    std::string s = anything("c", vf_pick("length", 0, 2)), none;
    bool refused = false;
    try
    {
        switch (how)
        {
        case 0:
            split(s, none);
            break;
        case 1:
            strip(s, none);
            break;
        case 2:
            lstrip(s, none);
            break;
        default:
            rstrip(s, none);
        }
    }
    catch (const std::runtime_error &)
    {
        refused = true;
    }
    vf_assert(refused, "an empty separator is refused");
    vf_cover("end");
}

// ---- C32 : signals and processes
extern "C" int vf_waited();
static const int g_sigs[] = {SIGHUP, SIGUSR1, SIGTERM, 34};

extern "C" void on_signal(int)
{
}

extern "C" void C32_handle()
{
    int sig = vf_int("sig", 1, 64), how = vf_pick("how", 0, 3);
    bool threw = false;
    int code = 0;
    try
    {
        if (how == 0)
        {
            ignore_signal(sig);
        }
        else if (how == 1)
        {
            reset_signal(sig);
        }
        else if (how == 2)
        {
            handle_signal(sig, on_signal);
        }
        else
        {
            handle_signal(sig);
        }
    }
    catch (const std::system_error &e)
    {
        threw = true;
        code = e.code().value();
    }
    vf_assert(vf_count("sigaction") == 1 && vf_arg("sigaction", 0, 0) == sig, "the handling of the given signal is set");
    long h = vf_val("sigaction", 0, 1);
    vf_assert(how != 0 || h == (long)SIG_IGN, "an ignored signal is ignored");
    vf_assert(how != 1 || h == (long)SIG_DFL, "a reset signal has its default action");
    vf_assert(how != 2 || h == (long)on_signal, "a handled signal runs its handler");
    vf_assert(how != 3 || (h != (long)SIG_DFL && h != (long)SIG_IGN), "a handled signal runs a handler");
    vf_assert(vf_val("sigaction", 0, 2) == 0, "the handler stays and takes the signal alone");
    vf_assert(how < 2 || (vf_sigset("sigaction", 0, SIGTERM) == 0 && vf_sigset("sigaction", 0, SIGUSR2) == 0), "the handler blocks no other signal");
    vf_assert(threw == vf_failed("sigaction") && (!threw || code == vf_lasterr()), "the error of the call is thrown");
    vf_cover(threw ? "throws" : "end");
}

extern "C" void C32_send()
{
    int pid = vf_int("pid", -1000, 1000), sig = vf_int("sig", 0, 64);
    bool threw = false, refused = false;
    int code = 0;
    try
    {
        send_signal(pid, sig);
    }
    catch (const std::system_error &e)
    {
        threw = true;
        code = e.code().value();
    }
    catch (const std::logic_error &)
    {
        refused = true;
    }
    vf_assert(refused == (sig == 0), "no signal is refused");
    vf_assert(vf_count("kill") == (refused ? 0 : 1), "one signal is sent");
    if (!refused)
    {
        vf_assert(vf_arg("kill", 0, 0) == pid && vf_arg("kill", 0, 1) == sig, "the given signal is sent to the given process");
        vf_assert(threw == vf_failed("kill") && (!threw || code == vf_lasterr()), "the error of the call is thrown");
    }
    vf_cover(threw ? "throws" : refused ? "refused" : "end");
}

extern "C" void C32_check()
{
    int pid = vf_int("pid", 1, 100000);
    bool group = vf_pick("group", 0, 1), threw = false, there = false;
    int code = 0;
    try
    {
        there = group ? check_process_group(pid) : check_process(pid);
    }
    catch (const std::system_error &e)
    {
        threw = true;
        code = e.code().value();
    }
    vf_assert(vf_count("kill") == 1 && vf_arg("kill", 0, 0) == (group ? -pid : pid) && vf_arg("kill", 0, 1) == 0, "the given process is looked for, no signal is sent");
    int err = vf_failed("kill") ? vf_lasterr() : 0;
    vf_assert(threw || there == (err != ESRCH), "a process is reported exactly if it is there");
    vf_assert(threw == (err != 0 && err != ESRCH && err != EPERM) && (!threw || code == err), "only another error is thrown");
    vf_cover(threw ? "throws" : there ? "there" : "gone");
}

static void exactly(const char *call, int k, int n, bool all)
{
    for (int s = 1; s <= 34; ++s)
    {
        bool given = false;
        for (int i = 0; i < n; ++i)
        {
            given = given || g_sigs[i] == s;
        }
        vf_assert(vf_sigset(call, k, s) == (given != all ? 1 : 0), "exactly the given signals are meant");
    }
}

extern "C" void C32_mask()
{
    int how = vf_pick("how", 0, 3), n = how < 2 ? 1 : vf_pick("signals", 0, 4);
    bool threw = false;
    int code = 0;
    std::vector<int> v(g_sigs, g_sigs + n);
    try
    {
        if (how == 0)
        {
            thread_block_signal(g_sigs[0]);
        }
        else if (how == 1)
        {
            thread_unblock_signal(g_sigs[0]);
        }
        else if (how == 2)
        {
            thread_block_signal(v);
        }
        else
        {
            thread_unblock_signal(v);
        }
    }
    catch (const std::system_error &e)
    {
        threw = true;
        code = e.code().value();
    }
    vf_assert(vf_count("pthread_sigmask") == 1 && vf_arg("pthread_sigmask", 0, 0) == (how % 2 ? SIG_UNBLOCK : SIG_BLOCK), "the mask is changed once, in the direction asked for");
    exactly("pthread_sigmask", 0, n, false);
    vf_assert(threw == vf_failed("pthread_sigmask") && (!threw || code == vf_lasterr()), "the error of the call is thrown");
    vf_cover(threw ? "throws" : "end");
}

extern "C" void C32_wait()
{
    int how = vf_pick("how", 0, 1), n = how == 0 ? 1 : vf_pick("signals", 0, 4);
    bool threw = false;
    int code = 0, got = 0;
    std::vector<int> v(g_sigs, g_sigs + n);
    try
    {
        if (how == 0)
        {
            thread_wait_for_signal(g_sigs[0]);
        }
        else
        {
            got = thread_wait_for_signal(v);
        }
    }
    catch (const std::system_error &e)
    {
        threw = true;
        code = e.code().value();
    }
    vf_assert(vf_count("sigwait") == 1, "one signal is waited for");
    exactly("sigwait", 0, n, false);
    vf_assert(threw == vf_failed("sigwait") && (!threw || code == vf_lasterr()), "the error of the call is thrown");
    if (!threw && how == 1)
    {
        vf_assert(got == vf_waited(), "the signal that came is returned");
    }
    vf_cover(threw ? "throws" : "end");
}

extern "C" void C32_suspend()
{
    int how = vf_pick("how", 0, 1), n = how == 0 ? 1 : vf_pick("signals", 0, 4);
    std::vector<int> v(g_sigs, g_sigs + n);
    if (how == 0)
    {
        thread_suspend_for_signal(g_sigs[0]);
    }
    else
    {
        thread_suspend_for_signal(v);
    }
    vf_assert(vf_count("sigsuspend") == 1, "the thread is suspended once");
    exactly("sigsuspend", 0, n, true);
    vf_cover("end");
}

extern "C" void C32_ask()
{
    int how = vf_pick("how", 0, 1), sig = vf_int("sig", 1, 64);
    bool threw = false, yes = false;
    int code = 0;
    try
    {
        yes = how == 0 ? thread_check_signal_mask(sig) : thread_check_signal_pending(sig);
    }
    catch (const std::system_error &e)
    {
        threw = true;
        code = e.code().value();
    }
    const char *call = how == 0 ? "pthread_sigmask" : "sigpending";
    vf_assert(vf_count(call) == 1 && threw == vf_failed(call) && (!threw || code == vf_lasterr()), "the error of the call is thrown");
    vf_assert(how != 0 || vf_sigset(call, 0, SIGHUP) == -1 || vf_arg(call, 0, 0) == SIG_BLOCK, "asking changes no mask");
    if (!threw)
    {
        vf_assert(vf_member(-1) == how + 1 && vf_arg("sigismember", -1, 1) == sig, "the mask and the pending signals of the thread are asked for the given signal");
        vf_assert(yes == (vf_ret("sigismember", -1) == 1), "the answer is the one of the set");
    }
    vf_cover(threw ? "throws" : "end");
}

extern "C" void C32_raise()
{
    int sig = vf_int("sig", 1, 64);
    bool threw = false;
    int code = 0;
    try
    {
        thread_raise_signal(sig);
    }
    catch (const std::system_error &e)
    {
        threw = true;
        code = e.code().value();
    }
    vf_assert(vf_count("raise") == 1 && vf_arg("raise", 0, 0) == sig, "the given signal is raised once");
    vf_assert(threw == vf_failed("raise") && (!threw || code == vf_lasterr()), "the error of the call is thrown");
    vf_cover(threw ? "throws" : "end");
}

// ---- C33 : symbols of shared libraries
extern "C" void C33_load()
{
    bool opened = false, threw = false, missing = false;
    int *p = nullptr;
    try
    {
        dynamic_loader l("libx.so");
        opened = true;
        vf_assert(vf_count("dlopen") == 1 && !vf_failed("dlopen") && strcmp((const char *)vf_argp("dlopen", 0, 0), "libx.so") == 0, "the named library is opened once");
        int mode = vf_arg("dlopen", 0, 1);
        vf_assert((mode & 3) == 1 || (mode & 3) == 2, "the library is opened in a mode there is");
        vf_assert(mode & RTLD_GLOBAL, "the symbols of the library can be used by libraries opened later");
        try
        {
            p = (int *)(void *)l.load<int(int)>("f");
        }
        catch (const std::runtime_error &)
        {
            missing = true;
        }
        vf_assert(vf_count("dlsym") == 1 && vf_arg("dlsym", 0, 0) == vf_ret("dlopen", 0) && strcmp((const char *)vf_argp("dlsym", 0, 1), "f") == 0, "the named symbol of the library is looked for");
        vf_assert(missing == vf_failed("dlsym"), "a missing symbol is thrown");
        vf_assert(missing || (long)p == vf_ret("dlsym", 0), "the address of the symbol is returned");
        void *q = nullptr;
        vf_reset();
        try
        {
            q = (void *)l.load<void()>("g");
        }
        catch (const std::runtime_error &)
        {
        }
        vf_assert(vf_failed("dlsym") || ((long)q == vf_ret("dlsym", 0) && strcmp((const char *)vf_argp("dlsym", 0, 1), "g") == 0), "the address of the symbol is returned");
        vf_assert(vf_count("dlclose") == 0, "the library stays while it is used");
    }
    catch (const std::runtime_error &)
    {
        threw = true;
    }
    if (opened)
    {
        vf_assert(vf_count("dlclose") == 1, "the library is closed once");
        vf_cover("end");
    }
    else
    {
        vf_assert(threw && vf_failed("dlopen") && vf_count("dlclose") == 0, "a library that cannot be opened is thrown");
        vf_cover("throws");
    }
}

// ---- C37 : clock and dates
extern "C" void C37_now()
{
    bool threw = false;
    int code = 0;
    long t = 0;
    try
    {
        t = cppev::time();
    }
    catch (const std::system_error &e)
    {
        threw = true;
        code = e.code().value();
    }
    vf_assert(vf_count("time") == 1, "the clock is asked once");
    vf_assert(threw == vf_failed("time") && (!threw || code == vf_lasterr()), "a failing clock is thrown with its error");
    vf_assert(threw || t == vf_ret("time", 0), "the time of the clock is returned");
    vf_cover(threw ? "throws" : "end");
}

extern "C" void C37_stamp()
{
    vf_text();
    long given = (long)vf_int("days", -100, 2000000000) * 86400L + vf_int("second", 0, 86399);
    const char *format = vf_bool("format") ? "%H:%M" : nullptr;
    bool threw = false, refused = false;
    int code = 0;
    std::string s;
    try
    {
        s = format ? timestamp(given, format) : timestamp(given);
    }
    catch (const std::system_error &e)
    {
        threw = true;
        code = e.code().value();
    }
    catch (const std::exception &)
    {
        refused = true;
    }
    vf_assert(vf_count("localtime") + vf_count("gmtime") + vf_count("ctime") + vf_count("asctime") == 0, "no state is shared with other threads");
    vf_assert(vf_count("gmtime_r") == 0, "the local time is used");
    bool unknown = vf_failed("time") || vf_failed("localtime_r");
    if (unknown)
    {
        vf_assert(threw && code == vf_lasterr(), "a time that cannot be had or broken down is thrown with the error of the call");
        vf_assert(vf_count("strftime") == 0, "nothing is written for a time that is not known");
        vf_cover("unknown");
        return;
    }
    vf_assert(vf_count("localtime_r") == 1 && vf_count("strftime") == 1, "one time is broken down and written once");
    if (given >= 0)
    {
        vf_assert(vf_count("time") == 0 && vf_val("localtime_r", 0, 0) == given, "the given time is used");
    }
    else if (vf_count("time") == 1)
    {
        vf_assert(vf_val("localtime_r", 0, 0) == vf_ret("time", 0), "the current time is used where none is given");
    }
    vf_assert(strcmp((const char *)vf_argp("strftime", 0, 2), format ? "%H:%M" : "%F %T %Z") == 0, "the asked format, or date, time of day and zone, is used");
    if (vf_ret("strftime", 0) == 0)
    {
        vf_assert(threw || refused, "a text that could not be written is thrown");
        vf_cover("no text");
        return;
    }
    vf_assert(!threw && !refused, "a written time is returned");
    vf_assert(vf_val("strftime", 0, 0) == 1, "the time that was broken down is written");
    vf_assert(s.size() == 3 && s[0] == vf_val("strftime", 0, 1) && s[1] == vf_val("strftime", 0, 2) && s[2] == vf_val("strftime", 0, 3), "the text is returned");
    vf_cover("end");
}

template <typename Clock>
static void next_second()
{
    long second = vf_int("second", 0, 2147483647), rest = vf_int("rest", 0, 999999999);
    typename Clock::time_point p(std::chrono::duration_cast<typename Clock::duration>(std::chrono::nanoseconds(second * 1000000000L + rest)));
    typename Clock::time_point n = ceil_time_point<Clock>(p);
    vf_assert(std::chrono::nanoseconds(n.time_since_epoch()).count() == (second + 1) * 1000000000L, "the next full second is the first one that is later");
    vf_cover("end");
}

extern "C" void C37_second()
{
    if (vf_bool("steady"))
    {
        next_second<std::chrono::steady_clock>();
    }
    else
    {
        next_second<std::chrono::system_clock>();
    }
}

extern "C" void C37_error()
{
    errno = vf_int("errno", 1, 133);
    int given = vf_int("given", 1, 133), left = errno;
    int how = vf_pick("how", 0, 3), seen = 0;
    try
    {
        switch (how)
        {
        case 0: throw_system_error("what"); break;
        case 1: throw_system_error("what", given); break;
        case 2: throw_logic_error("what"); break;
        case 3: throw_runtime_error("what"); break;
        }
    }
    catch (const std::system_error &e)
    {
        seen = how < 2 ? 1 : 2;
        vf_assert(how > 1 || e.code().value() == (how == 0 ? left : given), "the error carries the given number, or the current one");
    }
    catch (const std::runtime_error &e)
    {
        seen = how == 3 ? 1 : 2;
    }
    catch (const std::logic_error &e)
    {
        seen = how == 2 ? 1 : 2;
    }
    vf_assert(seen == 1, "the error is of the kind that was asked for");
    vf_cover("end");
}
