#include <type_traits>
#include <utility>
#include <memory>
#include <vector>
#include <string>
#include <functional>
#include <tuple>
#include <map>
#include <unordered_map>
#include <chrono>
#include <thread>
#include "cppev/cppev.h"
using namespace cppev;
struct body : runnable { body() {} body(int, const std::string &) {} void run_impl() override {} };
struct point { int x; point(int x_, const std::string &) : x(x_) {} point() : x(0) {} };
T("dynamic_loader::load") auto f(const dynamic_loader &d) { d.load<void(int)>("a"); d.load<int()>("b"); return d.load<std::shared_ptr<body>(const std::string &)>("c"); }
T("shared_memory::construct") auto f(shared_memory &m) { m.construct<point>(); m.construct<int>(3); std::string s; return m.construct<point>(3, s); }
T("runnable::wait_for") bool f(body &b) { return b.wait_for(std::chrono::seconds(1)) || b.wait_for(std::chrono::nanoseconds(1)) || b.wait_for(std::chrono::duration<double>(0.5)); }
T("timed_scheduler with the system clock") void f() { timed_scheduler<> a(1.0, [](const std::chrono::nanoseconds &) {}); }
T("timed_scheduler with the steady clock") void f() { timed_scheduler<std::chrono::steady_clock> a(1.0, [](const std::chrono::nanoseconds &) {}); }
T("subp_open::wait") void f(subp_open &s) { s.wait(std::chrono::milliseconds(1)); s.wait(std::chrono::microseconds(1)); s.wait(std::chrono::duration<double>(0.1)); s.wait(); }
T("thread_pool") void f() { thread_pool<body> a(3); thread_pool<body, int, std::string> b(2, 3, "x"); b.run(); b.join(); b.cancel(); const auto &c = a; (void)&c[0]; (void)&a[1]; thread_pool<body> d(std::move(a)); d = std::move(d); }
T("enum_hash") void f() { std::unordered_map<priority, int, enum_hash> a; std::unordered_map<fd_event, int, enum_hash> b; std::unordered_map<family, int, enum_hash> c; a[priority::p0] = 1; }
T("tuple_less and tuple_greater") bool f() { using q = std::tuple<int, std::string>; return tuple_less<q, 0>()(q(1, "a"), q(2, "b")) || tuple_greater<q, 1>()(q(1, "a"), q(2, "b")); }
T("sleep_until with the system clock") void f() { sleep_until(std::chrono::nanoseconds(1)); sleep_until<std::chrono::system_clock>(std::chrono::seconds(1)); }
T("sleep_until with the steady clock") void f() { sleep_until<std::chrono::steady_clock>(std::chrono::nanoseconds(1)); }
T("ceil_time_point") void f() { ceil_time_point(std::chrono::system_clock::now()); ceil_time_point<std::chrono::steady_clock>(std::chrono::steady_clock::now()); }
