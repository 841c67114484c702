#include <type_traits>
#include <utility>
#include <memory>
#include <vector>
#include <string>
#include <functional>
#include <tuple>
#include <map>
#include <chrono>
#include <thread>
#include "cppev/cppev.h"
using namespace cppev;
template <class T> constexpr bool no_copy = !std::is_copy_constructible<T>::value && !std::is_copy_assignable<T>::value;
template <class T> constexpr bool no_move = !std::is_move_constructible<T>::value && !std::is_move_assignable<T>::value;
template <class T> constexpr bool moves = std::is_move_constructible<T>::value && std::is_move_assignable<T>::value;
template <class T> constexpr bool safe_moves = std::is_nothrow_move_constructible<T>::value && std::is_nothrow_move_assignable<T>::value;
template <class T> constexpr bool safe_end = std::is_nothrow_destructible<T>::value;
template <class T, class... A> constexpr bool from = std::is_constructible<T, A...>::value;
template <class A, class B> constexpr bool converts = std::is_convertible<A, B>::value;
struct body : runnable { void run_impl() override {} };
using body_pool = thread_pool<body>;
#define W(c, q) static_assert(c, q);
W(no_copy<nio>, "a descriptor owner cannot be copied: nio")
W(no_copy<nstream>, "a descriptor owner cannot be copied: nstream")
W(no_copy<nsock>, "a descriptor owner cannot be copied: nsock")
W(no_copy<nsocktcp>, "a descriptor owner cannot be copied: nsocktcp")
W(no_copy<nsockudp>, "a descriptor owner cannot be copied: nsockudp")
W(no_copy<event_loop>, "a descriptor owner cannot be copied: event_loop")
W(no_copy<shared_memory>, "the owner of a mapping cannot be copied: shared_memory")
W(no_copy<semaphore>, "the owner of a semaphore cannot be copied: semaphore")
W(no_copy<dynamic_loader>, "the owner of a library handle cannot be copied: dynamic_loader")
W(no_copy<subp_open>, "the owner of a child process cannot be copied: subp_open")
W(no_copy<runnable>, "the owner of a thread cannot be copied: runnable")
W(no_copy<body>, "the owner of a thread cannot be copied: a class derived from runnable")
W(no_copy<body_pool>, "the owner of threads cannot be copied: thread_pool")
W(no_copy<task_queue::thread_pool_task_queue>, "the owner of threads cannot be copied: thread_pool_task_queue")
W(no_copy<task_queue::task_queue>, "a queue with a lock cannot be copied: task_queue")
W(no_copy<async_logger>, "the owner of a thread cannot be copied: async_logger")
W(no_copy<timed_scheduler<>>, "the owner of a thread cannot be copied: timed_scheduler")
W(no_copy<reactor::tcp_server>, "the owner of threads cannot be copied: tcp_server")
W(no_copy<reactor::tcp_client>, "the owner of threads cannot be copied: tcp_client")
W(no_copy<rdlockguard>, "the holder of a lock cannot be copied: rdlockguard")
W(no_copy<wrlockguard>, "the holder of a lock cannot be copied: wrlockguard")
W(no_copy<spinlock> && no_move<spinlock>, "a lock stays at its address: spinlock")
W(no_copy<pshared_lock> && no_move<pshared_lock>, "a lock stays at its address: pshared_lock")
W(no_copy<pshared_cond> && no_move<pshared_cond>, "a lock stays at its address: pshared_cond")
W(no_copy<pshared_rwlock> && no_move<pshared_rwlock>, "a lock stays at its address: pshared_rwlock")
W(no_copy<pshared_one_time_fence> && no_move<pshared_one_time_fence>, "a lock stays at its address: pshared_one_time_fence")
W(no_copy<pshared_barrier> && no_move<pshared_barrier>, "a lock stays at its address: pshared_barrier")
W(no_move<event_loop>, "an object others point to stays at its address: event_loop")
W(no_move<runnable> && no_move<body>, "an object its thread points to stays at its address: runnable")
W(no_move<task_queue::thread_pool_task_queue>, "an object its threads point to stays at its address: thread_pool_task_queue")
W(no_move<async_logger>, "an object its thread points to stays at its address: async_logger")
W(no_move<timed_scheduler<>>, "an object its thread points to stays at its address: timed_scheduler")
W(no_move<reactor::tcp_server>, "an object its threads point to stays at its address: tcp_server")
W(no_move<reactor::tcp_client>, "an object its threads point to stays at its address: tcp_client")
W(no_move<dynamic_loader>, "a library handle stays with its object: dynamic_loader")
W(safe_moves<nstream>, "can be moved, without throwing: nstream")
W(safe_moves<nsocktcp>, "can be moved, without throwing: nsocktcp")
W(safe_moves<nsockudp>, "can be moved, without throwing: nsockudp")
W(safe_moves<buffer>, "can be moved, without throwing: buffer")
W(std::is_copy_constructible<buffer>::value && std::is_copy_assignable<buffer>::value, "can be copied: buffer")
W(safe_moves<shared_memory>, "can be moved, without throwing: shared_memory")
W(safe_moves<semaphore>, "can be moved, without throwing: semaphore")
W(safe_moves<rdlockguard>, "can be moved, without throwing: rdlockguard")
W(safe_moves<wrlockguard>, "can be moved, without throwing: wrlockguard")
W(moves<subp_open>, "can be moved: subp_open")
W(moves<body_pool>, "can be moved: thread_pool")
W(safe_end<nstream> && safe_end<nsocktcp> && safe_end<nsockudp> && safe_end<event_loop> && safe_end<shared_memory> && safe_end<semaphore>, "ends without throwing: owners of system objects")
W(safe_end<subp_open> && safe_end<body> && safe_end<async_logger> && safe_end<reactor::tcp_server> && safe_end<reactor::tcp_client> && safe_end<timed_scheduler<>>, "ends without throwing: owners of threads and processes")
W(safe_end<rdlockguard> && safe_end<wrlockguard> && safe_end<pshared_lock> && safe_end<pshared_cond> && safe_end<pshared_rwlock> && safe_end<pshared_one_time_fence> && safe_end<pshared_barrier> && safe_end<spinlock>, "ends without throwing: locks and guards")
W(std::has_virtual_destructor<nio>::value && std::has_virtual_destructor<nstream>::value && std::has_virtual_destructor<nsock>::value, "destroyed completely through a pointer to its base: io objects")
W(std::has_virtual_destructor<runnable>::value && std::has_virtual_destructor<body_pool>::value, "destroyed completely through a pointer to its base: threads and pools")
W((std::is_abstract<runnable>::value), "only what says what to run can be started: runnable")
W((converts<nsocktcp *, nstream *> && converts<nsocktcp *, nsock *> && converts<nsocktcp *, nio *> && converts<nsockudp *, nio *> && converts<nstream *, nio *>), "every io object is usable as its bases")
W((std::is_convertible<std::shared_ptr<nsocktcp>, std::shared_ptr<nio>>::value), "a socket can be registered in an event loop")
