"""The properties, in words."""

TECHNIQUE = 'disjunctive abstract interpretation of the LLVM IR with typestate and effect obligations'

LEVEL_NOTE = ('Static analysis of the LLVM IR compiled from the current sources: every path of the analysed entry points over all '
              'outcomes of the modelled system calls, loops unrolled then generalised. Trusts clang\'s IR, the system-call and '
              'standard-library transformers and the drivers. Only obligations that fail on an exact path are reported; what '
              'stays undecided on generalised paths is listed in the evidence. ')

NOTES = ('Every check compiles /repo/src/lib and the drivers in engine/drv to LLVM IR and analyses it; nothing of the library is '
         'executed. See DESIGN.md.')

IO = 'src/lib/nio.cc'
IOH = 'src/include/cppev/nio.h'
EV = 'src/lib/event_loop_epoll.cc'

FEW = 'The existing tests run a few round trips over a quiet loopback, where '

PROPERTIES = [
    dict(id='C01', title='Stream reads deliver every byte once, in order, and report how they ended',
         statement='Reading a chunk or everything from a stream appends exactly the bytes the descriptor delivered to the read buffer, in '
                   'order and behind what was already there, never more than asked for, and returns how many. Reading stops early only when the '
                   'descriptor would block, ended or was reset, and end of stream and reset are reported exactly when they happened. '
                   'Interrupted reads are retried and every other error is thrown.',
         over=['inputs', 'fault_sequences', 'histories'],
         q='Every buffer content and size, requested length, and sequence of full, partial, empty, interrupted, would-block, reset and '
           'failing reads of the operating system.',
         why=FEW + 'reads are rarely partial and never interrupted, reset or failing in the middle of a transfer.',
         files=[IO, IOH], mech=[('chunk and full stream reads', IO + ':nstream::read_chunk, nstream::read_all')]),
    dict(id='C02', title='Stream writes send the buffer in order and keep exactly what was not sent',
         statement='Writing a chunk or everything to a stream passes the oldest buffered bytes to the descriptor in order, removes exactly '
                   'the bytes it accepted and returns how many. Writing stops early only when the descriptor would block or the '
                   'connection broke, and a broken or reset connection is reported exactly when it happened. Interrupted writes are '
                   'retried and every other error is thrown.',
         over=['inputs', 'fault_sequences', 'histories'],
         q='Every buffer content, requested length, and sequence of full, partial, interrupted, would-block, broken-pipe, reset and failing '
           'writes of the operating system.',
         why=FEW + 'a write of a small buffer is accepted whole; partial writes and errors between them do not occur.',
         files=[IO, IOH], mech=[('chunk and full stream writes', IO + ':nstream::write_chunk, nstream::write_all')]),
    dict(id='C03', title='The io buffer stays inside its memory and is first in, first out',
         statement='Putting, producing, getting, consuming, resizing, clearing and copying a buffer never touches memory outside it, and its '
                   'contents are always the bytes put in and not yet taken out, in order. The reported size, capacity and contents agree after '
                   'every operation, and growing never loses contents.',
         over=['inputs', 'histories'],
         q='Every sequence of buffer operations up to the analysed length, with symbolic sizes, offsets and contents.',
         why='The tests check a few fixed strings; they do not reach every mix of sizes, offsets and growth.',
         files=[IO, IOH], mech=[('offset arithmetic and growth', IO + ':buffer::resize, buffer::put_string, buffer::get_string, buffer::tiny')]),
    dict(id='C04', title='Every descriptor is owned by one object and closed exactly once',
         statement='A descriptor handed to or created by an io object stays open until the object is closed, replaced by move assignment or '
                   'destroyed, and is then closed exactly once; a moved-from object owns nothing. Factories and accept return every '
                   'descriptor they opened in an object, and a failing factory leaks none and throws the error of the call that failed.',
         over=['histories', 'fault_sequences'],
         q='Every sequence of construct, close, move, assign and destroy on all object kinds, and every failure of the creating calls.',
         why='Tests do not count descriptors, never let creation fail half way and do not close twice.',
         files=[IO, IOH], mech=[('closing and moving', IO + ':nio::~nio, nio::close, nio::move'), ('factories', IO + ':nio_factory, nsocktcp::accept')]),
    dict(id='C05', title='Moving an io object carries over all of its state',
         statement='After move construction or assignment of a stream, tcp, udp or unix object the target has the source\'s descriptor, '
                   'buffers, end-of-stream, reset, broken-pipe and closed flags, peer, family and event loop. The source stays valid to destroy or assign.',
         over=['inputs', 'histories'],
         q='Every state of the source and target, all movable io classes.',
         why='Tests do not move objects that already carry data or flags.',
         files=[IO, IOH], mech=[('move members', IO + ':nio::move, nstream::move, nsock::move')]),
    dict(id='C06', title='A failing system call is handled or thrown with its own error number',
         statement='Socket operations (binding, listening, connecting, options, naming, blocking mode, creation) throw exactly when a system '
                   'call failed in a way they do not handle, and the exception carries the error number of that call. Connect reports '
                   'a started or completed connection and nothing else, and malformed address text is rejected before it is used.',
         over=['fault_sequences', 'inputs'],
         q='Every failing call with every error number, at every position of each operation.',
         why='Errors of the operating system do not happen in the tests.',
         files=[IO], mech=[('error checks', IO + ':throw_system_error call sites')]),
    dict(id='C07', title='A datagram is sent and received whole, once, with its peer and its errors',
         statement='Receiving takes one datagram, appends all of its bytes to the read buffer and reports the sender\'s address, port and '
                   'family; sending passes the whole write buffer as one datagram and empties it. A failed receive or send throws its error '
                   'and leaves the buffer as it was, and empty datagrams are ordinary.',
         over=['inputs', 'fault_sequences'],
         q='Every datagram length including zero and the largest, every buffer content, every failure.',
         why='Tests exchange one short datagram on loopback and never fail.',
         files=[IO], mech=[('datagram transfer', IO + ':nsockudp::recv, nsockudp::send')]),
    dict(id='C08', title='Addresses reach and leave the kernel intact for ipv4, ipv6 and unix',
         statement='Bind, connect and send pass a fully initialised address of the socket\'s family with the given host, port in network byte '
                   'order, or path and the right length; paths that do not fit are rejected, not truncated. Local and remote names are '
                   'reported in host byte order, for the family the kernel returned, and factories create non-blocking sockets of the '
                   'requested family and type.',
         over=['inputs', 'configurations'],
         q='Every port, host text, path length and address the kernel may return, for each family.',
         why='Tests use one port and two hosts per family and never look at the bytes given to the kernel.',
         files=[IO], mech=[('address setters and getters', IO + ':set_ip_port, set_inet_sockaddr, set_path, nsock::addr')]),
    dict(id='C09', title='Socket options, shutdown and blocking mode act as named',
         statement='Every socket option setter and getter names its own option and passes the requested value to, or reports the value from, '
                   'the kernel unchanged. Shutdown closes exactly the requested direction and keeps the descriptor open, and switching '
                   'the blocking mode changes only that flag.',
         over=['inputs', 'configurations'],
         q='Every option with every value, every direction.',
         why='A kernel may round or ignore values; the tests set a handful and many options are never read back.',
         files=[IO, IOH], mech=[('option accessors', IO + ':nsock::set_so_*, nsock::get_so_*'), ('shutdown', IO + ':nsocktcp::shutdown')]),
    dict(id='C10', title='Registering a handler is complete before its descriptor can fire',
         statement='When an object is registered with an event loop, its handler, priority and owner are in place before the operating system '
                   'is told to watch the descriptor, whatever another thread running the loop does. The kernel is told exactly when '
                   'activation is asked for, a failure is thrown with its error, no lock stays held, and the load of a loop counts registered handlers.',
         over=['schedules', 'fault_sequences', 'histories'],
         q='Every interleaving of one registering and one dispatching thread at the system calls, every failure.',
         why='The window between the two steps is a few instructions; tests do not hit it.',
         files=[EV, 'src/include/cppev/event_loop.h'], mech=[('registration', EV + ':event_loop::fd_register, fd_register_and_activate, fd_activate')]),
    dict(id='C11', title='One poll round runs each ready handler once, highest priority first',
         statement='For each reported descriptor and event the registered handler runs exactly once with its own object, handlers '
                   'of higher priority first, and handlers of other descriptors or events never run. Handlers run while the loop holds no lock and may register and '
                   'remove handlers themselves. A failed poll throws its error unless merely interrupted, and then nothing is dispatched.',
         over=['inputs', 'fault_sequences', 'histories'],
         q='Every batch of up to three reported events with any masks, over registered descriptors of any priority.',
         why='Tests deliver one event at a time; batches with mixed masks and priorities depend on timing.',
         files=[EV], mech=[('dispatch', EV + ':event_loop::loop_once')]),
    dict(id='C12', title='A removed handler never runs again, and loop state is locked',
         statement='Removing a descriptor from a loop forgets its handlers of the named event and tells the kernel exactly when '
                   'deactivation is asked for; the handlers of other descriptors stay. Registration, removal and dispatch from '
                   'different threads never touch the loop\'s tables without its lock.',
         over=['schedules', 'fault_sequences', 'histories'],
         q='Every registered set, every failure, every pair of concurrent operations.',
         why='Data races show only under rare schedules.',
         files=[EV], mech=[('removal', EV + ':event_loop::fd_remove, fd_remove_and_deactivate, fd_deactivate')]),
    dict(id='C13', title='Stopping a loop from any thread ends it',
         statement='A stop request made at any moment, also while the loop waits for events, makes the loop return without polling again '
                   'after the wake-up, and until then the loop goes on. The request is visible to the looping thread without a data race.',
         over=['schedules'],
         q='Every interleaving of the stop request with the system calls of the loop.',
         why='A lost stop needs the request between the check of the flag and the poll.',
         files=[EV], mech=[('stop flag and wake-up', EV + ':event_loop::stop_loop, loop_forever')]),
    dict(id='C14', title='Connection callbacks run once, in order, in a worker, and connections are freed',
         statement='Every accepted connection is announced once by a worker thread before any of its data, each read callback sees exactly what arrived '
                   'since the last one, and a connection the peer ended or reset is reported closed once, after its last data. A closed '
                   'connection is no longer watched and its descriptor is closed exactly once, also when the user closed it inside any callback '
                   'or keeps the object, and other connections go on.',
         over=['schedules', 'fault_sequences', 'histories'],
         q='Every order of arrival, data, end, reset and user close analysed, with up to two connections and every delivery of their events.',
         why='Tests echo whole messages and close at the end; an end or reset inside a callback or with pending data does not occur.',
         files=['src/lib/tcp.cc', 'src/include/cppev/tcp.h'],
         mech=[('handlers of a connection', 'src/lib/tcp.cc:iohandler::on_acpt_writable, on_readable, safely_close')]),
    dict(id='C15', title='An asynchronous write is sent whole and its completion reported once',
         statement='Data handed to an asynchronous write is sent in order and completely however the kernel accepts it, completion is reported once and '
                   'only when everything was sent, and the connection then reads on, also when the completion callback writes again or closes. A connection that '
                   'breaks while data is pending is reported closed once and never as complete.',
         over=['schedules', 'fault_sequences', 'histories'],
         q='Writes accepted whole, in parts, blocked, interrupted or broken at each step, started from any callback.',
         why='Loopback writes of test size are accepted at once, so the waiting path is never taken.',
         files=['src/lib/tcp.cc'], mech=[('asynchronous write', 'src/lib/tcp.cc:async_write, iohandler::on_writable')]),
    dict(id='C16', title='Shutting a server or client down ends every thread and closes its sockets',
         statement='Shutting down returns with every worker, listening and connecting thread ended, whatever each was doing at that moment, and starts none. '
                   'Listening sockets and remaining connections are closed exactly once with their owner, and no connection is reported as closed by its peer.',
         over=['schedules', 'configurations'],
         q='One or two workers, zero to two listeners or one to two connectors, threads not yet started, waiting, or with a connection at each stage.',
         why='A shutdown that hangs needs a thread caught at one particular call.',
         files=['src/lib/tcp.cc'], mech=[('shutdown order', 'src/lib/tcp.cc:tcp_server::shutdown, tcp_client::shutdown')]),
    dict(id='C17', title='A client attempts exactly the connections asked for and announces the made ones',
         statement='Every request makes the given number of connection attempts of the given family, whether it comes before or while the client runs, '
                   'from any thread, and however many connecting threads share the work. An established connection is announced once by a worker and then delivers '
                   'data; one that failed at once or later is never announced and its socket is closed once.',
         over=['schedules', 'fault_sequences', 'inputs'],
         q='Up to four attempts over one or two connecting threads, requests interleaved at every system call of the connecting thread, each outcome of connecting.',
         why='Tests request before the client runs and every connection succeeds.',
         files=['src/lib/tcp.cc'], mech=[('request queue', 'src/lib/tcp.cc:connector::add, connector::on_pipe_readable, tcp_client::add'),
                                        ('completion check', 'src/lib/tcp.cc:iohandler::on_cont_writable')]),
    dict(id='C18', title='A connection is handed to one least loaded worker and stays there',
         statement='Each new connection is handed to exactly one worker, one with the fewest registered connections at that moment, and all of its callbacks run '
                   'in that worker\'s thread. Connections that ended no longer count.',
         over=['histories', 'schedules'],
         q='Two workers, up to five connections, ends in between; either worker runs first.',
         why='Tests do not observe which worker serves a connection.',
         files=['src/lib/tcp.cc'], mech=[('worker choice', 'src/lib/tcp.cc:tp_shared_data::minloads_get_evlp')]),
    dict(id='C19', title='Every task queued before stopping runs exactly once in a worker',
         statement='A task added to a running task-queue pool runs exactly once, in a worker thread and with no lock of the queue held, however it was added '
                   '(copied, moved, in a batch, from another thread, from inside a task). Stopping waits for everything already queued and ends every worker; '
                   'with one worker tasks run in the order they were added. The queue is never touched by two threads without synchronisation.',
         over=['schedules', 'histories'],
         q='One and two workers, up to four tasks, every interleaving with up to two forced switches at lock, unlock, notify and wait calls, spurious wake-ups.',
         why='A lost wake-up, a task taken twice or a worker that misses the stop needs one particular switch between two instructions.',
         files=['src/include/cppev/thread_pool.h'], mech=[('task queue', 'src/include/cppev/thread_pool.h:task_queue::add_task, thread_pool_task_queue_runnable::run_impl'),
                                                        ('stop', 'src/include/cppev/thread_pool.h:thread_pool_task_queue::stop')]),
    dict(id='C20', title='A runnable runs its body once in its own thread; its operations report the truth',
         statement='run() executes the body once in a new thread; join() returns only after it ended; wait_for() reports finished exactly when it ended; cancel() and '
                   'send_signal() reach that very thread; every failing thread call is thrown with its own error number. A thread pool makes, starts, cancels, joins '
                   'and moves all of its members.',
         over=['fault_sequences', 'schedules'],
         q='Every thread call with every outcome; body before or after each operation; pools of zero to three members.',
         why='pthread calls practically never fail in tests, and a wrong thread handle works by accident when only one thread exists.',
         files=['src/include/cppev/runnable.h', 'src/include/cppev/thread_pool.h'],
         mech=[('runnable operations', 'src/include/cppev/runnable.h'), ('pool', 'src/include/cppev/thread_pool.h:thread_pool')]),
    dict(id='C21', title='Log records are written whole, once and in order, also under load and at exit',
         statement='Each record ended with log::endl is written to the logger\'s descriptor whole, exactly once, with one header, not mixed with records of other threads, and '
                   'one thread\'s records in their order; short, blocked and interrupted writes lose and repeat nothing; destroying the logger writes what is left; a '
                   'descriptor that fails neither hangs the program nor stops later records. Its buffers are never used by two threads without synchronisation.',
         over=['schedules', 'fault_sequences', 'inputs'],
         q='One and two logging threads and the writer with up to two forced switches at synchronisation calls; scripted short, blocked, interrupted and failing writes; '
           'text with NUL bytes, numbers, empty pieces; happens-before over all buffer accesses.',
         why='Tests cannot make write() stop in the middle of a record, nor destroy the logger between a wake-up and a write.',
         files=['src/lib/async_logger.cc'], mech=[('front end', 'src/lib/async_logger.cc:async_logger::operator<<'), ('writer', 'src/lib/async_logger.cc:async_logger::run_impl')]),
    dict(id='C22', title='The scheduler calls tasks at every multiple of their interval, by priority',
         statement='A scheduler runs its init tasks once and first, its exit tasks once and last, and calls every timed task once for each multiple of its interval, never '
                   'early, with the nominal time also when running late, in order of time and, at one instant, of priority; all in its own thread. Destroying it ends the '
                   'thread after the sleep it is in without further calls; a scheduler without timed tasks is refused.',
         over=['histories', 'schedules'],
         q='Concrete grids of one, two and three tasks (10, 5, 4, 2, 1, 0.5 and 0.25 Hz), aligned or not, late or in time, stopped at any of the first ticks. '
           'Sub-nanosecond rounding of arbitrary frequencies is not claimed.',
         why='Tests check call counts within a tolerance, so an instant that is skipped or repeated, or a swapped order, passes.',
         files=['src/include/cppev/scheduler.h', 'src/lib/utils.cc'], mech=[('grid', 'src/include/cppev/scheduler.h:timed_scheduler::timed_scheduler'),
                                                                           ('lcm and gcd', 'src/lib/utils.cc:least_common_multiple, greatest_common_divisor')]),
    dict(id='C23', title='Shared memory: one creator, big enough, shared, handed over and unmapped once',
         statement='Opening a shared memory object maps the named object shared and writable with at least the requested size; exactly the process that made it is told it is '
                   'the creator; an existing object is never truncated and an object still too short is sized before it is mapped; losing the race to create it is no error. A '
                   'failure is thrown with its own error number and leaves nothing mapped or open. Moving and assigning hand the mapping over, it is unmapped exactly once, and '
                   'only unlink() removes the name.',
         over=['fault_sequences', 'histories', 'inputs'],
         q='Every outcome of every call of the constructor, both creation outcomes, existing objects of every size, moves, assignments and self-assignment.',
         why='Races of two creating processes and failing fstat, ftruncate or mmap do not occur in tests.',
         files=['src/lib/ipc.cc', 'src/include/cppev/ipc.h'], mech=[('shared memory', 'src/lib/ipc.cc:shared_memory')]),
    dict(id='C24', title='Named semaphore: one creator, exact unit counts, signals and errors',
         statement='Opening a named semaphore attaches to an existing one or makes it with no units and tells exactly the maker it is the creator; losing the race is no error. '
                   'acquire(n) and release(n) take and give exactly n units whatever signals arrive, try_acquire() tells the truth, every failure is thrown with its own error '
                   'number, and the semaphore is closed exactly once and unlinked only by unlink().',
         over=['fault_sequences', 'histories', 'inputs'],
         q='Every outcome of every call, zero to five units exactly and further ones by generalisation, signals between units, moves, assignments and self-assignment.',
         why='Tests see neither interrupted waits nor the creation race.',
         files=['src/lib/ipc.cc', 'src/include/cppev/ipc.h'], mech=[('semaphore', 'src/lib/ipc.cc:semaphore')]),
    dict(id='C25', title='Locks and conditions work across processes as asked and report every error',
         statement='Mutexes, read-write locks, conditions and spin locks are made with the requested sharing, every operation acts on its own object in its own mode, an attempt '
                   'tells whether it took the lock, a failing call is thrown with its own error number (locking a mutex twice and unlocking a foreign one fail), and each object is '
                   'destroyed once. Waiting for a condition returns only '
                   'while it holds, with the lock held, whatever wakes the waiter, and every notified waiter goes on.',
         over=['fault_sequences', 'schedules'],
         q='Every operation with every outcome; one and two waiters, one and two notifiers, up to two forced switches at synchronisation calls, spurious wake-ups.',
         why='pthread calls practically never fail in tests, and a wrong wake-up needs one particular switch.',
         files=['src/include/cppev/lock.h', 'src/lib/lock.cc'], mech=[('locks', 'src/lib/lock.cc'), ('conditions', 'src/lib/lock.cc:pshared_cond')]),
    dict(id='C26', title='A one-time fence holds everybody until opened, then lets everybody pass',
         statement='Nobody returns from waiting at a one-time fence before it is opened; once opened, everybody waiting or arriving later passes without holding a lock, it '
                   'stays open, and opening it again changes nothing. Its state is never used by two threads without synchronisation.',
         over=['schedules'],
         q='One and two waiters, one and two openers, up to two forced switches at synchronisation calls, spurious wake-ups.',
         why='A missed wake-up needs the opener between the waiter\'s test and its wait.',
         files=['src/include/cppev/lock.h', 'src/lib/lock.cc'], mech=[('fence', 'src/lib/lock.cc:pshared_one_time_fence')]),
    dict(id='C27', title='A barrier lets its threads pass only together and refuses extra ones',
         statement='No thread passes a barrier before as many arrived as it counts; then all of them pass, holding no lock, and every further arrival is refused by an '
                   'exception instead of blocking or passing. Its state is never used by two threads without synchronisation.',
         over=['schedules'],
         q='Barriers of one to three, exact, short and extra arrivals, up to two forced switches at synchronisation calls, spurious wake-ups.',
         why='Early release and missed wake-ups depend on one particular interleaving.',
         files=['src/include/cppev/lock.h', 'src/lib/lock.cc'], mech=[('barrier', 'src/lib/lock.cc:pshared_barrier')]),
    dict(id='C28', title='Read and write guards hold their lock in their mode exactly while they own it',
         statement='A read or write guard holds its lock, in its own mode, from locking to unlocking or destruction, releases only a lock it took, hands it over when moved or '
                   'assigned, and passes errors on. With guards, a writer is alone and readers never see one, and everybody gets the lock.',
         over=['histories', 'schedules', 'fault_sequences'],
         q='Every sequence of guard operations of the driver, failing locks, two readers and writers with up to two forced switches.',
         why='A guard that forgets or repeats an unlock after a move deadlocks or breaks exclusion only in rare sequences.',
         files=['src/include/cppev/lock.h'], mech=[('guards', 'src/include/cppev/lock.h:rdlockguard, wrlockguard')]),
    dict(id='C29', title='A subprocess gets its program, arguments, environment and exactly three pipes',
         statement='Starting a subprocess runs the named program with the given arguments and environment, its standard input, output and error being the pipes whose other '
                   'ends the caller writes and reads, blocking, and no other end inherited. The child never returns into the caller: if the program cannot be run it ends with a '
                   'failure status without running exit functions. Every failing call is thrown with its error number, and no descriptor stays open afterwards.',
         over=['fault_sequences', 'inputs', 'configurations'],
         q='Every outcome of every pipe, fork and exec call, every subset of the caller\'s standard descriptors being open, five command lines, zero to two variables.',
         why='Tests see neither failing pipe or fork calls nor closed standard descriptors, and wrong inheritance shows only with further processes.',
         files=['src/lib/subprocess.cc', 'src/include/cppev/subprocess.h'], mech=[('start', 'src/lib/subprocess.cc:subp_open::subp_open')]),
    dict(id='C30', title='Waiting loses no output, never deadlocks, and reaps only its own process once',
         statement='Waiting for a subprocess, or polling and communicating, ends once it ended; all of its output and error output is kept in order whenever it was written, all '
                   'input reaches it in order even if it exceeds the pipe, the caller never blocks on a pipe, the exit status is the one delivered, the process is reaped once, '
                   'and signals go to it only while it is not reaped. Failures are thrown with their error number.',
         over=['schedules', 'fault_sequences', 'inputs'],
         q='A program with two-byte pipes that copies up to five bytes, writes up to three to each output and exits, going on at any calls of the caller (up to two free steps).',
         why='Output written between the last read and the exit, or a pipe that is full at a certain moment, depends on scheduling tests do not control.',
         files=['src/lib/subprocess.cc', 'src/include/cppev/subprocess.h'], mech=[('waiting', 'src/include/cppev/subprocess.h:subp_open::wait'),
                                                                               ('polling, communicating, signalling', 'src/lib/subprocess.cc:subp_open')]),
    dict(id='C31', title='Splitting, joining and stripping keep and drop exactly the right characters',
         statement='split() cuts a string at every leftmost separator and nowhere else, so that the parts put together with the separator are the string again; join() puts '
                   'exactly the separator between the parts; strip(), lstrip() and rstrip() take off exactly the repetitions of the given string at the chosen ends. All of it for '
                   'any characters and lengths, without reading outside the strings; an empty separator or strip string is refused by a runtime error.',
         over=['inputs'],
         q='Strings of up to five (separators of two and three: six) arbitrary characters, separators of one to three, up to three parts; further in the thorough tier.',
         why='Tests sample a few words; overlapping, repeated and adjacent separators of several characters are the cases that go wrong.',
         files=['src/lib/utils.cc'], mech=[('string functions', 'src/lib/utils.cc:split, join, do_strip')]),
    dict(id='C32', title='Signal operations affect exactly the given signals and processes',
         statement='Ignoring, resetting and handling set the disposition of the given signal; blocking, unblocking, waiting and suspending use exactly the given set of signals in '
                   'the right direction; asking answers from the thread\'s mask or pending set; sending and raising reach exactly the given process or thread, and signal 0 is '
                   'refused; a process is reported present exactly if it exists, also when it may not be signalled. Failures are thrown with the error of the call, also where the '
                   'call returns its error.',
         over=['inputs', 'fault_sequences'],
         q='Every operation, every outcome and error number, any signal and process, sets of up to four signals.',
         why='Tests use one signal in one process of the same user, where calls never fail.',
         files=['src/lib/utils.cc', 'src/include/cppev/utils.h'], mech=[('signals', 'src/lib/utils.cc:handle_signal, send_signal, check_process, thread_block_signal, thread_wait_for_signal')]),
    dict(id='C33', title='A dynamic loader opens, resolves and closes exactly its library',
         statement='A dynamic loader opens the named library once and closes it once at its end; load() returns the address of the named symbol of that library; a library that '
                   'cannot be opened or a missing symbol is thrown as a runtime error, and what was not opened is not closed.',
         over=['fault_sequences', 'histories'],
         q='Every outcome of dlopen and dlsym, two symbols in a row.',
         why='Closing a library early or twice works in tests as long as something else keeps it mapped.',
         files=['src/include/cppev/dynamic_loader.h'], mech=[('loader', 'src/include/cppev/dynamic_loader.h:dynamic_loader')]),
    dict(id='C34', title='Owners cannot be duplicated, and what others point to cannot be moved',
         statement='Objects that own a descriptor, mapping, semaphore, library, child process, lock or thread cannot be copied, so nothing is released twice; objects '
                   'other code keeps pointers to (event loops, locks, running threads, servers and clients) cannot be moved; the io objects, buffers, mappings, semaphores and '
                   'guards can be moved without throwing; no destructor throws; io objects and threads are destroyed completely through a pointer to their base.',
         over=['inputs', 'configurations'],
         q='Every program: each forbidden operation is rejected by the compiler.',
         why='A test that duplicates an owner does not compile, so no test can show that it stays impossible.',
         technique='compile-time witnesses (static assertions over type traits)',
         files=[IOH, 'src/include/cppev'], mech=[('ownership of types', 'src/include/cppev/nio.h, event_loop.h, ipc.h, lock.h, runnable.h, subprocess.h, tcp.h')]),
    dict(id='C35', title='Every public header can be used alone, in any order, by any number of sources',
         statement='Each public header compiles on its own, included twice, before and after all others; cppev.h brings in all of them; no header defines anything that two '
                   'translation units could not share; every operation a header declares is defined in the library, and every template compiles when used.',
         over=['configurations'],
         q='Every header, first and last among the others; every declaration and definition of the headers.',
         why='Tests include headers in a fixed order and call only some of the declared operations.',
         technique='front-end queries over headers, declarations and linkage',
         files=['src/include/cppev'], mech=[('public headers', 'src/include/cppev/*.h')]),
    dict(id='C36', title='Servers and clients use the addresses, threads and callbacks they were given',
         statement='A server listens with one bound, watched socket on each requested port, address or path and family, and refuses a listener that cannot be set up with the '
                   'error of the call that failed, closing its socket and going on without it. A client connects to the requested address. Running starts exactly the requested '
                   'threads, not earlier and once SIGPIPE is ignored; every callback runs for its own event and reaches the external data, and one that was never set does nothing.',
         over=['inputs', 'fault_sequences', 'configurations'],
         q='Every port, three kinds of address, one and two workers, listeners and connectors, every failing call of the set-up.',
         why='Tests use one port on one address; a listener that fails and a second address need another machine state.',
         files=['src/lib/tcp.cc', 'src/include/cppev/tcp.h'], mech=[('set-up', 'src/lib/tcp.cc:tcp_server, tcp_client')]),
    dict(id='C37', title='Clock helpers give the true time, its text and every failure',
         statement='time() returns what the clock says or throws its error. timestamp() breaks the given time, or the current one if none is given, down in local time without state '
                   'shared between threads and returns exactly the text it has in the asked format, by default date, time of day and zone; a time that cannot be had or broken down is '
                   'thrown with the error of that call, and a text that cannot be written is an error. The next full second of a point in time is the first one that is later. The error '
                   'helpers throw the asked kind with the given or the current error number.',
         over=['inputs', 'fault_sequences'],
         q='Every time, any time since the epoch on either clock, every outcome of the clock and calendar calls, every error number.',
         why='Tests call the helpers with the time of the test, where no call fails and no second ends.',
         files=['src/lib/utils.cc', 'src/include/cppev/utils.h'], mech=[('clock and calendar', 'src/lib/utils.cc:time, timestamp; src/include/cppev/utils.h:ceil_time_point'),
                                                                      ('errors', 'src/lib/utils.cc:throw_system_error')]),
    dict(id='C38', title='Greatest common divisor and least common multiple are right for all numbers',
         statement='For positive numbers the greatest common divisor divides all of them and is the largest to do so, the least common multiple is divided by all of them and is the '
                   'smallest, and no intermediate result leaves the range while the result fits.',
         over=['inputs'],
         q='All positive 64-bit numbers and all lists of at least two of them.',
         why='Tests sample a handful of small numbers.',
         na='Divisibility is not linear: the analysis here follows linear equalities, bounds and remainders of a constant divisor, and an invariant such as gcd(p, r) = gcd(r, p mod r) over '
            'the loop needs number theory (a proof assistant or solver, another family). A lint for the present shape of the loop would alarm on every equivalent rewriting. What a user sees of '
            'these functions, the instants at which scheduled tasks run, is decided under C22 for concrete intervals.',
         files=['src/lib/utils.cc'], mech=[('numbers', 'src/lib/utils.cc:greatest_common_divisor, least_common_multiple')]),
]
