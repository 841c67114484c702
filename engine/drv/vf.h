// Vocabulary of the analysis drivers.  Nothing here is ever linked or run: the analyser gives each of these
// functions its meaning.
#ifndef VF_H
#define VF_H
extern "C"
{
int vf_int(const char *name, int lo, int hi);       // any value of the range, the same at every call
int vf_any(const char *name, int lo, int hi);       // another one at every call
bool vf_coin(const char *name);
int vf_pick(const char *name, int lo, int hi);      // every value of the range, one partition each
bool vf_bool(const char *name);
void *vf_ptr(const char *name);
void vf_assume(bool c);
void vf_assert(bool c, const char *msg);
void vf_cover(const char *name);                    // this point has to be reachable
void vf_mark(const char *name, ...);
long vf_g(const char *name);
void vf_set(const char *name, long v);
long vf_off(const void *p);
long vf_size(const void *p);
const void *vf_root(const void *p);
void vf_yield();
void vf_reset();                                    // event queries below look at what follows
void vf_ok(const char *calls);                      // these system calls do not fail from here on
void vf_only(const char *call, const char *outcomes);
int vf_count(const char *ev);
long vf_ret(const char *ev, int k);
int vf_err(const char *ev, int k);
bool vf_failed(const char *ev);
long vf_arg(const char *ev, int k, int i);
void *vf_argp(const char *ev, int k, int i);
long vf_val(const char *ev, int k, int i);          // value captured at a call
int vf_nfail();                                     // failed calls
int vf_lasterr();                                   // error number of the last failed call
int vf_closes(int fd);
int vf_piped(int k, int end);
int vf_accepted();
long vf_optval(int i);                              // what getsockopt delivered
int vf_saport();                                    // port of the address the kernel delivered, host order
void vf_static(const char *name);                    // initialise the static object of this name
long vf_saaddr();                                   // first bytes of that address
const char *vf_cstr(const char *name, int lo, int hi);
int vf_cstrlen(const char *s);
int vf_rcount(int fd);                              // bytes a stream delivered / accepted, by position
int vf_rbyte(int fd, int i);
int vf_wcount(int fd);
int vf_wbyte(int fd, int i);
int vf_evfd(int i);                                 // descriptor / mask of the i-th event reported
int vf_evmask(int i);
void vf_events(int lo, int hi, int lo2, int hi2);
void vf_on(const char *call, const char *fn, int tid);  // another thread may run fn when this one makes the call
void vf_off_all();
void vf_thread(int tid);
int vf_nheld();
void vf_race(int on);
void vf_wait(int spurious, int mustwake);
bool vf_run_thread(int i);
void *vf_run_pthread(int i);
}
#endif
extern "C"
{
// kernel objects and threads as state machines
void vf_kernel();
void vf_script(const char *call, const char *outcomes);   // the next outcomes, in order
void vf_opened(int fd);                             // the driver's own descriptor
int vf_armed(int fd);                               // events the descriptor is registered for
int vf_pollers(int fd);
void vf_ready(int fd, int mask);                    // one report, delivered when a poller is armed for it
int vf_run(int i);                                  // run the i-th started thread until it blocks (1) or ends (2)
int vf_nthreads();
int vf_ended(int i);
void vf_sched();
}
extern "C" void vf_quietlog();
extern "C" int vf_tid();
extern "C" void vf_preempt(int n);
extern "C" void vf_plain();
extern "C" void vf_text();
extern "C"
{
int vf_pos(const char *ev, int k);                  // position of a call among all events
int vf_oks(const char *ev);                         // calls that did not fail
long vf_stsize(int k);                              // what fstat reported
}
extern "C"
{
// processes
void vf_fdtab(int mask);                            // descriptors are numbers from here on, those of the mask are open
void vf_fork();                                     // a fork is followed on both sides: child up to exec or exit, then parent
void vf_hook(const char *calls);                    // the driver's vfd_<call> answers these calls
int vf_fdobj(int fd);                               // what a descriptor refers to; pipes: read end even, write end odd
int vf_fdcount();
bool vf_nonblock(int obj);
bool vf_child();
}
extern "C"
{
int vf_sigset(const char *call, int k, int sig);    // whether the set given at a call has the signal (-1 no set, -2 unknown)
int vf_member(int k);                               // which set the k-th sigismember asked: 1 mask, 2 pending
bool vf_deep();                                     // thorough tier
}
