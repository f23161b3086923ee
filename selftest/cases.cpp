// Small programs with a known verdict for the scheduler and race detector.
#include <atomic>
#include <condition_variable>
#include <future>
#include <memory>
#include <mutex>
#include <queue>
#include <shared_mutex>
#include <string>
#include <thread>
#include <vector>
#define T extern "C" __attribute__((visibility("default"))) int
static int g;
template <class F> void two(F f) {
  std::thread a([&] { f(0); });
  std::thread b([&] { f(1); });
  a.join();
  b.join();
}
// ---- correct programs
T ok_mutex() { g = 0; std::mutex m; two([&](int) { for (int i = 0; i < 2; i++) { std::lock_guard<std::mutex> l(m); g++; } }); return g; }
T ok_atomic() { std::atomic<int> c{0}; std::vector<int> v(4); two([&](int) { while (true) { int i = c.fetch_add(1); if (i >= 4) break; v[i] = i + 1; } }); int s = 0; for (int x : v) s += x; return s; }
T ok_publish() { int d = 0; std::atomic<bool> f{false}; int r = 0; two([&](int t) { if (!t) { d = 7; f.store(true, std::memory_order_release); } else { if (f.load(std::memory_order_acquire)) r = d; } }); return r; }
T ok_queue() {
  std::mutex m; std::condition_variable cv; std::queue<int> q; bool done = false; int s = 0;
  std::thread c([&] { while (true) { std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return !q.empty() || done; }); if (q.empty()) return; s += q.front(); q.pop(); } });
  std::thread p([&] { for (int i = 1; i < 3; i++) { { std::lock_guard<std::mutex> l(m); q.push(i); } cv.notify_one(); } { std::lock_guard<std::mutex> l(m); done = true; } cv.notify_all(); });
  p.join(); c.join(); return s;
}
T ok_promise() { std::promise<int> p; auto f = p.get_future(); int r = 0; std::thread a([&] { p.set_value(5); }); std::thread b([&] { r = f.get(); }); a.join(); b.join(); return r; }
T ok_shared_ptr() { auto p = std::make_shared<std::vector<int>>(8, 1); std::atomic<int> s{0}; { auto q = p; std::thread a([q, &s]() mutable { s += (int)q->size(); q.reset(); }); std::thread b([p2 = p, &s]() mutable { s += (*p2)[3]; p2.reset(); }); p.reset(); q.reset(); a.join(); b.join(); } return s; }
static int make() { return 3; }
T ok_static() { std::atomic<int> s{0}; two([&](int) { static const int v = make(); s += v; }); return s; }
T ok_once() { std::once_flag f; int v = 0; std::atomic<int> s{0}; two([&](int) { std::call_once(f, [&] { v = 4; }); s += v; }); return s; }
T ok_tls() { static thread_local int x = 0; std::atomic<int> s{0}; two([&](int) { x++; s += x; }); return s; }
T ok_rw() { std::shared_mutex m; int v = 0; std::atomic<int> s{0}; two([&](int t) { if (t) { std::unique_lock<std::shared_mutex> l(m); v = 1; } else { std::shared_lock<std::shared_mutex> l(m); s += v * 0 + 1; } }); return s; }
T ok_async() { std::vector<std::future<int>> f; std::atomic<int> c{0}; for (int i = 0; i < 2; i++) f.emplace_back(std::async(std::launch::async, [&c] { int s = 0, i; while ((i = c.fetch_add(1)) < 3) s += i + 1; return s; })); int s = 0; for (auto &x : f) s += x.get(); return s; }
T ok_packaged() { std::packaged_task<int()> t([] { return 9; }); auto f = t.get_future(); std::thread a(std::move(t)); int r = f.get(); a.join(); return r; }
T ok_strings() { std::vector<std::string> v(4); two([&](int t) { for (int i = 0; i < 2; i++) v[2 * t + i] = std::string(40, 'a'); }); int s = 0; for (auto &x : v) s += (int)x.size(); return s; }
T ok_heap() { std::atomic<int> s{0}; two([&](int) { for (int i = 0; i < 3; i++) { std::vector<int> v(100, 1); s += v[50]; } }); return s; }
// ---- wrong programs
T race_counter() { g = 0; two([&](int) { g++; }); return g; }
T race_cursor() { int c = 0; std::vector<int> v(8); two([&](int) { while (true) { int i = c++; if (i >= 4) break; v[i] = 1; } }); return 0; }
T race_relaxed() { int d = 0; std::atomic<bool> f{false}; int r = 0; two([&](int t) { if (!t) { d = 7; f.store(true, std::memory_order_relaxed); } else { if (f.load(std::memory_order_relaxed)) r = d; } }); return r; }
T race_read() { int r[2]; std::vector<int> v(2, 0); two([&](int t) { if (t) v[0] = 1; else r[0] = v[0]; }); return 0; }
T race_neighbours() { std::vector<bool> v(8); two([&](int t) { v[t] = true; }); return 0; }
T race_free() { int *p = new int(3); std::atomic<int> s{0}; two([&](int t) { if (t) delete p; else s += *p; }); return 0; }
T race_sometimes() { int d = 0; std::atomic<int> c{0}; two([&](int t) { if (c.fetch_add(1, std::memory_order_relaxed) == 0 && t) d = 1; else if (!t) { std::atomic<int> x{d}; c += x; } }); return 0; }
T race_async_buf() { std::vector<int> buf; std::atomic<int> c{0}; std::vector<std::future<void>> f; for (int i = 0; i < 2; i++) f.emplace_back(std::async(std::launch::async, [&] { while (c.fetch_add(1) < 2) { buf.clear(); buf.push_back(1); } })); for (auto &x : f) x.get(); return 0; }
T value_lost() { std::atomic<int> x{0}; two([&](int) { int y = x.load(); x.store(y + 1); }); return x; } // 1 or 2
T value_skip() { std::atomic<int> c{0}; std::atomic<int> n{0}; two([&](int) { while (c.load() < 3) { c.fetch_add(1); n.fetch_add(1); } }); return n; } // 3 or 4
T left_detached() { static std::atomic<int> s{0}; std::thread a([] { s++; s++; s++; }); a.detach(); return 0; }
T dead_abba() { std::mutex a, b; two([&](int t) { std::lock_guard<std::mutex> l(t ? a : b); std::lock_guard<std::mutex> k(t ? b : a); }); return 0; }
T dead_wait() { std::mutex m; std::condition_variable cv; bool r = false; two([&](int t) { if (t) { { std::lock_guard<std::mutex> l(m); r = true; } cv.notify_one(); } else { { std::unique_lock<std::mutex> l(m); if (r) return; } std::unique_lock<std::mutex> l(m); cv.wait(l); } }); return 0; }
