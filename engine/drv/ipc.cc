// Inter-process objects: shared memory, semaphores.
#include "cppev/ipc.h"
#include "cppev/lock.h"
#include <errno.h>
#include <fcntl.h>
#include <string.h>
#include <sys/mman.h>
#include <system_error>
#include <mutex>
#include <functional>
#include "vf.h"

using namespace cppev;

#define NAME "/obj"

static bool named(const char *call, int k)
{
    return strcmp((const char *)vf_argp(call, k, 0), NAME) == 0;
}

// ---- C23 : shared memory
extern "C" void C23_open()
{
    int size = vf_int("size", 1, 1 << 30);
    int mode = 0640;
    vf_ok("munmap,close,shm_unlink");
    vf_set("mapold", 0x5a);
    bool threw = false;
    int code = 0;
    try
    {
        shared_memory m(NAME, size, mode);
        int n = vf_count("shm_open");
        vf_assert(vf_oks("shm_open") == 1 && !vf_failed("shm_open"), "the object is opened once");
        int fd = vf_ret("shm_open", -1);
        int flags = vf_arg("shm_open", -1, 1);
        vf_assert((flags & O_ACCMODE) == O_RDWR, "the object is opened for reading and writing");
        bool made = (flags & O_CREAT) != 0;
        vf_assert(!made || (flags & O_EXCL), "an object is created exclusively, so that one process knows it is the creator");
        vf_assert(m.creator() == made, "creator() tells whether this process made the object");
        vf_assert(!(flags & O_TRUNC), "an existing object keeps its contents");
        if (made)
        {
            vf_assert(vf_arg("shm_open", -1, 2) == mode, "the object is made with the requested mode");
            vf_cover("made");
        }
        else
        {
            vf_cover("attached");
        }
        vf_assert(named("shm_open", n - 1), "the named object is opened");
        vf_assert(vf_oks("mmap") == 1 && vf_count("mmap") == 1, "the object is mapped once");
        vf_assert(vf_arg("mmap", -1, 4) == fd && vf_arg("mmap", -1, 5) == 0, "the opened object is mapped from its start");
        vf_assert(vf_arg("mmap", -1, 1) == size && m.size() == size, "the requested size is mapped");
        vf_assert(vf_arg("mmap", -1, 3) == MAP_SHARED, "the mapping is shared with other processes");
        vf_assert(vf_arg("mmap", -1, 2) == (PROT_READ | PROT_WRITE), "the mapping can be read and written");
        vf_assert(m.ptr() == (void *)vf_ret("mmap", -1), "ptr() is where the object is mapped");
        vf_assert(vf_closes(fd) == 1, "the descriptor is closed once mapped");
        int t = vf_count("ftruncate");
        if (t == 0)
        {
            vf_assert(vf_count("fstat") >= 1 && vf_stsize(-1) >= size, "an object that may be shorter than the mapping is sized");
            vf_cover("large enough");
        }
        else
        {
            vf_assert(t == 1 && vf_arg("ftruncate", -1, 0) == fd && vf_arg("ftruncate", -1, 1) == size, "a short object is sized as requested");
            vf_assert(made || (vf_count("fstat") >= 1 && vf_stsize(-1) < size), "an object large enough is never cut, other processes use it");
            vf_assert(vf_pos("ftruncate", -1) < vf_pos("mmap", -1), "the object is sized before it is mapped");
            vf_cover("sized");
        }
        vf_assert(vf_count("munmap") == 0, "the mapping stays while the object lives");
        vf_assert(((char *)m.ptr())[0] == 0x5a, "what another process wrote by now stays");
        vf_reset();
        char *p = m.construct<char>('q');
        vf_assert((void *)p == m.ptr() && *p == 'q', "construct() makes the object in the shared memory");
    }
    catch (const std::system_error &e)
    {
        threw = true;
        code = e.code().value();
    }
    if (threw)
    {
        vf_assert(code == vf_lasterr(), "the error of the failing call is thrown");
        vf_assert(vf_oks("mmap") == 0, "nothing stays mapped when opening fails");
        if (vf_oks("shm_open"))
        {
            vf_assert(vf_closes(vf_ret("shm_open", -1)) == 1, "the descriptor is closed when opening fails");
            vf_cover("late failure");
        }
        else
        {
            int k = vf_count("shm_open");
            vf_assert(!(vf_arg("shm_open", -1, 1) & O_CREAT) || code != EEXIST, "losing the race to create the object is not an error");
            vf_assert((vf_arg("shm_open", -1, 1) & O_CREAT) || k > 1 || code != ENOENT, "a missing object is created");
        }
        vf_cover("throws");
    }
    else
    {
        vf_assert(vf_count("munmap") == 1, "the mapping is undone once");
        vf_assert(vf_count("shm_unlink") == 0, "other processes can still attach");
        vf_cover("end");
    }
}

extern "C" void C23_life()
{
    vf_ok("munmap,close,fstat,mmap,ftruncate,shm_open");
    void *pa, *pb;
    bool creates = vf_bool("creates");
    if (creates)
    {
        vf_script("shm_open", "fail:2,ok,ok,ok");
    }
    int how = vf_pick("how", 0, 3);
    {
        shared_memory a(NAME, 64);
        pa = a.ptr();
        bool made = a.creator();
        vf_assert(made == creates, "creator() tells whether this process made the object");
        vf_cover(made ? "made" : "attached");
        if (how == 0)
        {
            shared_memory b(std::move(a));
            vf_assert(b.ptr() == pa && b.size() == 64 && b.creator() == made, "moving hands the mapping over");
            vf_assert(a.ptr() == nullptr && a.size() == 0 && !a.creator(), "what was moved from has no mapping");
            vf_assert(vf_count("munmap") == 0, "moving keeps the mapping");
            vf_reset();
            a.unlink();
            vf_assert(vf_count("shm_unlink") == 0, "what was moved from has no name");
            vf_only("shm_unlink", "ok");
            b.unlink();
            vf_assert(vf_count("shm_unlink") == 1 && named("shm_unlink", -1), "moving hands the name over");
            vf_reset();
        }
        else if (how == 1)
        {
            shared_memory b("/other", 32);
            pb = b.ptr();
            b = std::move(a);
            vf_assert(vf_count("munmap") == 1 && (void *)vf_arg("munmap", 0, 0) == pb && vf_arg("munmap", 0, 1) == 32, "assigning undoes the old mapping");
            vf_assert(b.ptr() == pa && b.size() == 64 && b.creator() == made, "assigning hands the mapping over");
            vf_assert(a.ptr() == nullptr && a.size() == 0 && !a.creator(), "what was moved from has no mapping");
            vf_reset();
            vf_only("shm_unlink", "ok");
            a.unlink();
            vf_assert(vf_count("shm_unlink") == 0, "what was moved from has no name");
            b.unlink();
            vf_assert(vf_count("shm_unlink") == 1 && named("shm_unlink", -1), "assigning hands the name over");
            vf_reset();
        }
        else if (how == 2)
        {
            shared_memory &r = a;
            a = std::move(r);
            vf_assert(a.ptr() == pa && a.size() == 64 && a.creator() == made && vf_count("munmap") == 0, "self-assignment changes nothing");
            vf_reset();
        }
        else
        {
            bool threw = false;
            int code = 0;
            vf_reset();
            try
            {
                a.unlink();
            }
            catch (const std::system_error &e)
            {
                threw = true;
                code = e.code().value();
            }
            vf_assert(vf_count("shm_unlink") == 1 && named("shm_unlink", -1), "unlinking removes the name");
            vf_assert(threw == vf_failed("shm_unlink") && (!threw || code == vf_lasterr()), "a failure to unlink is thrown");
            vf_assert(vf_count("munmap") == 0, "unlinking keeps the mapping");
        }
    }
    vf_assert(vf_count("munmap") == 1 && (void *)vf_arg("munmap", 0, 0) == pa && vf_arg("munmap", 0, 1) == 64, "the mapping is undone once");
    vf_cover("end");
}

// ---- C24 : semaphore
extern "C" void C24_open()
{
    vf_ok("sem_close");
    bool threw = false;
    int code = 0;
    try
    {
        semaphore s(NAME, 0640);
        vf_assert(vf_oks("sem_open") == 1 && !vf_failed("sem_open"), "the semaphore is opened once");
        int flags = vf_arg("sem_open", -1, 1);
        bool made = (flags & O_CREAT) != 0;
        vf_assert(!made || (flags & O_EXCL), "a semaphore is created exclusively");
        vf_assert(s.creator() == made, "creator() tells whether this process made the semaphore");
        if (made)
        {
            vf_assert(vf_arg("sem_open", -1, 2) == 0640 && vf_arg("sem_open", -1, 3) == 0, "a new semaphore has the requested mode and no units");
            vf_cover("made");
        }
        else
        {
            vf_cover("attached");
        }
        vf_assert(named("sem_open", -1), "the named semaphore is opened");
    }
    catch (const std::system_error &e)
    {
        threw = true;
        code = e.code().value();
    }
    if (threw)
    {
        vf_assert(vf_oks("sem_open") == 0 && code == vf_lasterr(), "the error of the failing call is thrown");
        vf_assert(!(vf_arg("sem_open", -1, 1) & O_CREAT) || code != EEXIST, "losing the race to create the semaphore is not an error");
        vf_assert((vf_arg("sem_open", -1, 1) & O_CREAT) || vf_count("sem_open") > 1 || code != ENOENT, "a missing semaphore is created");
        vf_assert(vf_count("sem_close") == 0, "a semaphore that was not opened is not closed");
        vf_cover("throws");
    }
    else
    {
        vf_assert(vf_count("sem_close") == 1 && vf_arg("sem_close", 0, 0) == vf_ret("sem_open", -1), "the semaphore is closed once");
        vf_assert(vf_count("sem_unlink") == 0, "other processes can still attach");
        vf_cover("end");
    }
}

extern "C" void C24_ops()
{
    vf_ok("sem_open,sem_close");
    semaphore s(NAME);
    long id = vf_ret("sem_open", -1);
    int op = vf_pick("op", 0, 2);
    int n = vf_pick("n", 0, 3);
    vf_reset();
    bool threw = false;
    int code = 0;
    bool got = false;
    try
    {
        if (op == 0)
        {
            if (n == 1)
            {
                s.acquire();
            }
            else
            {
                s.acquire(n);
            }
        }
        else if (op == 1)
        {
            if (n == 1)
            {
                s.release();
            }
            else
            {
                s.release(n);
            }
        }
        else
        {
            got = s.try_acquire();
        }
    }
    catch (const std::system_error &e)
    {
        threw = true;
        code = e.code().value();
    }
    const char *call = op == 0 ? "sem_wait" : op == 1 ? "sem_post" : "sem_trywait";
    vf_assert(vf_count("sem_wait") + vf_count("sem_post") + vf_count("sem_trywait") == vf_count(call), "an operation makes its own call");
    if (threw)
    {
        vf_assert(vf_failed(call) && code == vf_lasterr(), "the error of the failing call is thrown");
        vf_assert(op != 0 || code != EINTR, "a signal does not end waiting");
        vf_assert(op != 2 || code != EINTR, "a signal during an attempt is not an error");
        vf_assert(op != 2 || code != EAGAIN, "no unit is not an error");
        vf_cover("throws");
        return;
    }
    if (op != 2)
    {
        vf_assert(vf_oks(call) == n, "exactly the requested number of units is taken or given");
    }
    else
    {
        vf_assert(vf_count(call) >= 1 && got == !vf_failed(call), "try_acquire() tells whether a unit was taken");
        vf_assert(vf_oks(call) <= 1, "at most one unit is taken");
        vf_assert(got || vf_lasterr() == EAGAIN || vf_lasterr() == EINTR, "only a missing unit is reported as such");
    }
    if (vf_count(call))
    {
        vf_assert(vf_arg(call, -1, 0) == id, "the operation uses the semaphore that was opened");
    }
    vf_cover("end");
}

// signals arrive while waiting
extern "C" void C24_signals()
{
    vf_kernel();
    vf_ok("sem_open,sem_close");
    semaphore s(NAME);
    vf_reset();
    const char *how[] = {"fail:4,ok,ok", "ok,fail:4,fail:4,ok", "fail:4,ok,fail:4,ok", "ok,ok"};
    int k = vf_pick("how", 0, 3);
    int want[] = {3, 4, 4, 2};
    vf_script("sem_wait", how[k]);
    s.acquire(2);
    vf_assert(vf_oks("sem_wait") == 2 && vf_count("sem_wait") == want[k], "a signal does not end waiting, nor counts as a unit");
    vf_cover("end");
}

// every count, all units available
extern "C" void C24_counts()
{
    vf_ok("sem_open,sem_close,sem_wait,sem_post");
    semaphore s(NAME);
    vf_reset();
    int n = vf_pick("n", 0, 5);
    bool take = vf_pick("take", 0, 1);
    if (take)
    {
        s.acquire(n);
    }
    else
    {
        s.release(n);
    }
    vf_assert(vf_oks("sem_wait") == (take ? n : 0) && vf_oks("sem_post") == (take ? 0 : n), "exactly the requested number of units is taken or given");
    vf_cover("end");
}

extern "C" void C24_life()
{
    vf_ok("sem_open,sem_close");
    long ia, ib;
    bool creates = vf_bool("creates");
    if (creates)
    {
        vf_script("sem_open", "fail:2,ok,ok,ok");
    }
    int how = vf_pick("how", 0, 3);
    {
        semaphore a(NAME);
        ia = vf_ret("sem_open", -1);
        bool made = a.creator();
        vf_assert(made == creates, "creator() tells whether this process made the semaphore");
        vf_cover(made ? "made" : "attached");
        if (how == 0)
        {
            semaphore b(std::move(a));
            vf_assert(b.creator() == made && !a.creator(), "moving hands the semaphore over");
            vf_assert(vf_count("sem_close") == 0, "moving keeps the semaphore open");
            vf_ok("sem_open,sem_close,sem_post,sem_unlink");
            b.release();
            vf_assert(vf_count("sem_post") == 1 && vf_arg("sem_post", 0, 0) == ia, "moving hands the semaphore over");
            a.unlink();
            vf_assert(vf_count("sem_unlink") == 0, "what was moved from has no name");
            b.unlink();
            vf_assert(vf_count("sem_unlink") == 1 && named("sem_unlink", -1), "moving hands the name over");
            vf_reset();
        }
        else if (how == 1)
        {
            semaphore b("/other");
            ib = vf_ret("sem_open", -1);
            b = std::move(a);
            vf_assert(vf_count("sem_close") == 1 && vf_arg("sem_close", 0, 0) == ib, "assigning closes the old semaphore");
            vf_assert(b.creator() == made && !a.creator(), "assigning hands the semaphore over");
            vf_reset();
            vf_ok("sem_open,sem_close,sem_post,sem_unlink");
            b.release();
            vf_assert(vf_count("sem_post") == 1 && vf_arg("sem_post", 0, 0) == ia, "assigning hands the semaphore over");
            a.unlink();
            vf_assert(vf_count("sem_unlink") == 0, "what was moved from has no name");
            b.unlink();
            vf_assert(vf_count("sem_unlink") == 1 && named("sem_unlink", -1), "assigning hands the name over");
            vf_reset();
        }
        else if (how == 2)
        {
            semaphore &r = a;
            a = std::move(r);
            vf_assert(vf_count("sem_close") == 0 && a.creator() == made, "self-assignment changes nothing");
            vf_reset();
        }
        else
        {
            bool threw = false;
            int code = 0;
            vf_reset();
            try
            {
                a.unlink();
            }
            catch (const std::system_error &e)
            {
                threw = true;
                code = e.code().value();
            }
            vf_assert(vf_count("sem_unlink") == 1 && named("sem_unlink", -1), "unlinking removes the name");
            vf_assert(threw == vf_failed("sem_unlink") && (!threw || code == vf_lasterr()), "a failure to unlink is thrown");
        }
    }
    vf_assert(vf_count("sem_close") == 1 && vf_arg("sem_close", 0, 0) == ia, "the semaphore is closed once");
    vf_cover("end");
}
