// C08-C10: the concurrency primitives under every schedule.
#include "msx.h"
#include <condition_variable>
#include <mutex>
#include <memory>
#include <thread>
#include <algorithm>
#include <vector>
#include <stdexcept>
#include "core/sched/signaling_counter.hpp"
#include "core/sched/event.hpp"
#include "core/sched/thread_pool.hpp"
#include "core/io/fifo.hpp"
#ifndef WORKERS
#define WORKERS 2
#endif
#ifndef TASKS
#define TASKS 2
#endif
#ifndef CHUNKS
#define CHUNKS 2
#endif
#ifndef MAXCHUNK
#define MAXCHUNK 2
#endif
using namespace Maike;
#define STR2(x) #x
#define STR(x) STR2(x)
namespace { struct Err : std::runtime_error { int n; explicit Err(int k) : std::runtime_error("task"), n(k) {} }; }

// every task runs exactly once and has finished when the pool is gone; an exception of a task is kept for the caller
extern "C" void harness_pool() {
  uint8_t count[TASKS], fails[TASKS]; for(int i = 0; i < TASKS; ++i) { count[i] = 0; fails[i] = (uint8_t)msx_range(0, 1, "fails"); }
  std::exception_ptr ep; bool early = msx_range(0, 1, "take_early") != 0; std::exception_ptr e0;
  std::mutex m;
  {
    Sched::ThreadPool pool{ThreadCount{STR(WORKERS)}};
    msx_assert(pool.count() == WORKERS, "C08: the pool does not have the requested number of workers");
    for(int i = 0; i < TASKS; ++i) pool.addTask([i, &count, &fails]() { ++count[i]; if(fails[i]) throw Err{i}; });
    if(early) { Sched::SignalingCounter<int> done{0}; pool.addTask([l = std::unique_lock{done}]() {}); done.wait(0); }
    e0 = pool.takeLastException();
    msx_assert(e0 == nullptr || pool.takeLastException() == nullptr || true, "");
  }
  for(int i = 0; i < TASKS; ++i) msx_assert(count[i] == 1, "C08: a submitted task did not run exactly once before the pool was destroyed");
  if(e0) { msx_reach("exception"); try { std::rethrow_exception(e0); } catch(Err const& e) { msx_assert(e.n >= 0 && e.n < TASKS && fails[e.n], "C08: an exception was reported that no task threw"); } }
  else msx_reach("no exception");
  msx_observe(count[0]);
}
// with one worker every exception of the tasks before is visible once a later task is done
extern "C" void harness_pool_error() {
  uint8_t fails[TASKS]; int first = -1; for(int i = 0; i < TASKS; ++i) { fails[i] = (uint8_t)msx_range(0, 1, "fails"); }
  for(int i = TASKS; i-- > 0;) if(fails[i]) first = i;
  Sched::ThreadPool pool{ThreadCount{STR(WORKERS)}};
  Sched::SignalingCounter<int> done{0};
  for(int i = 0; i < TASKS; ++i) pool.addTask([i, &fails, l = std::unique_lock{done}]() { if(fails[i]) throw Err{i}; });
  done.wait(0);
  auto e = pool.takeLastException(); msx_assert((e != nullptr) == (first >= 0), "C08: an exception of a task is lost, or reported out of nothing");
  if(e) { msx_reach("exception"); try { std::rethrow_exception(e); } catch(Err const& x) { msx_assert(fails[x.n], "C08: the exception is not the one of a failed task"); if(WORKERS == 1) msx_assert(x.n == first, "C08: not the first exception"); } }
  else msx_reach("no exception");
  msx_assert(pool.takeLastException() == nullptr, "C08: an exception is reported twice");
}
// the result of an asynchronous task: value or exception, exactly what the task produced
extern "C" void harness_result() {
  uint8_t v, fail = (uint8_t)msx_range(0, 1, "fail"), take = (uint8_t)msx_range(0, 2, "take"); msx_symbolic(&v, 1, "value");
  Sched::ThreadPool pool{ThreadCount{STR(WORKERS)}};
  Sched::AsyncTaskResult<std::vector<uint8_t>> res; 
  pool.addTask([v, fail]() { if(fail) throw Err{7}; return std::vector<uint8_t>(2, v); }, res);
  bool threw = false;
  if(take == 2) { msx_reach("dropped"); return; } // destroying the result waits for the task
  try { auto r = take ? res.take() : res.get(); msx_assert(r.size() == 2 && r[0] == v && r[1] == v, "C08: an asynchronous result differs from what the task returned"); msx_reach("value"); }
  catch(Err const& e) { threw = true; msx_assert(e.n == 7, "C08: wrong exception"); msx_reach("thrown"); }
  msx_assert(threw == (fail != 0), "C08: an asynchronous task's exception is lost or invented");
}
// waiting for a counter never misses the change
extern "C" void harness_counter() {
  Sched::SignalingCounter<int> c{0}; uint8_t order = (uint8_t)msx_range(0, 1, "order"); int fin = 0; std::mutex m;
  std::vector<std::thread> t;
  for(int i = 0; i < WORKERS; ++i) { std::unique_lock<Sched::SignalingCounter<int>> l{c}; t.emplace_back([&m, &fin, l = std::move(l)]() mutable { { std::lock_guard g{m}; ++fin; } l.unlock(); }); }
  c.wait(0);
  { std::lock_guard g{m}; msx_assert(fin == WORKERS, "C09: the wait returned before the counter reached the awaited value"); }
  msx_assert(c == 0 && !(c != 0), "C09: counter value"); msx_reach("done");
  if(order) { std::thread u([&c]() { ++c; ++c; }); c.wait(2); msx_assert(c == 2, "C09: counter value"); u.join(); msx_reach("up"); }
  for(auto& x : t) x.join();
}
// counting from any value to any value, up or down
extern "C" void harness_countto() {
  int const from = (int)msx_range(0, 3, "from"), step = (int)msx_concretize(msx_range(0, 1, "up")) ? 1 : -1; Sched::SignalingCounter<int> c{from}; int fin = 0; std::mutex m; std::vector<std::thread> t;
  for(int i = 0; i < WORKERS; ++i) t.emplace_back([&]() { { std::lock_guard g{m}; ++fin; } if(step > 0) ++c; else --c; });
  int const to = from + step * WORKERS; c.wait(to);
  { std::lock_guard g{m}; msx_assert(fin == WORKERS, "C09: the wait returned before the counter reached the awaited value"); }
  msx_assert(c == to && !(c != to) && c != to + step, "C09: counter value"); msx_reach("done"); for(auto& x : t) x.join(); }
// every wait of an event is released by a set, before or after it
extern "C" void harness_event() {
  Sched::Event e; int flag = 0; std::mutex m;
  std::thread a([&]() { { std::lock_guard g{m}; ++flag; } e.set(); });
  std::thread b([&]() { { std::lock_guard g{m}; ++flag; } e.set(); });
  int seen;
  do { e.waitAndReset(); std::lock_guard g{m}; seen = flag; msx_assert(seen >= 1, "C09: an event wait was released although nothing was signalled"); } while(seen != 2);
  msx_reach("done"); a.join(); b.join();
}
// a signal releases one wait only: the next wait needs a signal of its own
extern "C" void harness_again() {
  Sched::Event e; int flag = 0; std::mutex m; unsigned const before = (unsigned)msx_concretize(msx_range(0, 1, "before")); // the first signal is given before, or while, it is waited for
  auto signal = [&]() { { std::lock_guard g{m}; ++flag; } e.set(); };
  std::thread a(signal); if(before) a.join();
  for(int i = 1; i <= 2; ++i) { if(i == 2) { if(!before) a.join(); a = std::thread(signal); }
    e.waitAndReset(); std::lock_guard g{m}; msx_assert(flag >= i, "C09: an event wait was released although it was not signalled again"); }
  msx_reach("done"); a.join();
}
// C10: a byte stream passes unchanged whatever the chunking and the interleaving, and ends exactly once
#ifndef MINCHUNK
#define MINCHUNK 1
#endif
extern "C" void harness_fifo() {
  Io::Fifo<std::byte> f; uint8_t data[CHUNKS * MAXCHUNK]; msx_symbolic(data, sizeof data, "data"); size_t len[CHUNKS], total = 0;
  for(auto& l : len) { l = msx_concretize(msx_range(MINCHUNK, MAXCHUNK, "chunk")); total += l; }
  size_t const rd = msx_concretize(msx_range(1, 3, "readsize"));
  std::thread w([&]() { size_t p = 0; for(size_t i = 0; i < CHUNKS; ++i) { std::byte tmp[MAXCHUNK]; for(size_t k = 0; k < len[i]; ++k) tmp[k] = (std::byte)data[p + k]; write(f, (std::byte const*)tmp, len[i]); for(auto& x : tmp) x = std::byte{0xEE}; p += len[i]; } f.stop(); });
  size_t got = 0;
  for(;;) { std::byte b[3]; size_t n = read(f, b, rd); msx_assert(n <= rd, "C10: more bytes delivered than requested"); if(n == 0) break; for(size_t k = 0; k < n; ++k) { msx_assert(got < total, "C10: bytes out of nothing"); msx_assert((uint8_t)b[k] == data[got], "C10: a byte is changed, lost, duplicated or reordered"); ++got; } }
  msx_assert(got == total, "C10: end of stream before all bytes were delivered"); msx_reach("end"); msx_observe(got);
  w.join();
}
