// P28: thread pool. Random histories of the owner of a pool against a model of which tasks must run.
#include <unistd.h>

#include <atomic>
#include <chrono>
#include <condition_variable>
#include <future>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <set>
#include <stdexcept>
#include <thread>
#include <vector>

#include "maliput/common/assertion_error.h"
#include "maliput/utility/thread_pool.h"
#include "pbt.h"

namespace {

using maliput::utility::ThreadPool;
using namespace std::chrono_literals;

PBT_RULE(P28,
         "at least three tasks were queued, and tasks were cancelled, threw, waited for one another or were queued "
         "after the start");

// What the tasks report. Everything is guarded by one mutex: the pool is what must order everything else.
struct Board {
  std::mutex m;
  std::condition_variable cv;
  std::map<int, int> started, ended;
  std::set<std::thread::id> threads;
  int in_flight{0};
  int max_in_flight{0};
  bool open{false};  // Gates wait for it.
  int at_gate{0};
  bool in_owner{false};
  std::thread::id owner;
};

enum class Kind { kValue, kThrow, kVoid, kMoveOnly, kReference, kYield, kGate };

struct Ticket {
  int id;
  Kind kind;
  std::future<int> value;
  std::future<void> nothing;
  std::future<std::unique_ptr<int>> owned;
  std::future<int&> reference;
  std::weak_ptr<int> functor;  // Lives as long as the functor of the task.
  bool may_cancel{false};
  bool must_cancel{false};
};

struct Scope {
  Scope(Board* board, int id) : b(board), id(id) {
    std::unique_lock<std::mutex> l(b->m);
    b->started[id]++;
    b->threads.insert(std::this_thread::get_id());
    if (std::this_thread::get_id() == b->owner) b->in_owner = true;
    b->max_in_flight = std::max(b->max_in_flight, ++b->in_flight);
    b->cv.notify_all();
  }
  ~Scope() {
    std::unique_lock<std::mutex> l(b->m);
    b->ended[id]++;
    --b->in_flight;
    b->cv.notify_all();
  }
  Board* b;
  int id;
};

int payload(int id) { return id * 7919 + 13; }

// A move only functor.
struct MoveOnly {
  Board* b;
  int id;
  std::shared_ptr<int> token;
  std::unique_ptr<int> v;
  std::unique_ptr<int> operator()() {
    Scope s(b, id);
    return std::move(v);
  }
};

struct History {
  explicit History(pbt::Src* src) : src(src), n(static_cast<int>(src->i(1, 6))) {}

  void Queue() {
    Ticket t;
    t.id = static_cast<int>(tickets.size());
    t.kind = static_cast<Kind>(src->weighted({6, 2, 2, 1, 1, 3, gates_allowed() ? 4 : 0}));
    auto token = std::make_shared<int>(1);
    t.functor = token;
    Board* b = board.get();
    const int id = t.id;
    const int naps = t.kind == Kind::kYield ? static_cast<int>(src->i(0, 30)) : 0;
    switch (t.kind) {
      case Kind::kThrow:
        t.value = pool->Queue([b, id, token]() -> int {
          Scope s(b, id);
          throw std::runtime_error("task " + std::to_string(id));
        });
        ++throws;
        break;
      case Kind::kVoid: {
        auto f = [b, id, token]() { Scope s(b, id); };
        t.nothing = pool->Queue(f);  // An lvalue.
        break;
      }
      case Kind::kMoveOnly:
        t.owned = pool->Queue(MoveOnly{b, id, token, std::make_unique<int>(payload(id))});
        break;
      case Kind::kReference: {
        t.reference = pool->Queue([b, id, token]() -> int& {
          Scope s(b, id);
          std::unique_lock<std::mutex> l(b->m);
          return b->started[id];
        });
        break;
      }
      case Kind::kGate:
        t.value = pool->Queue([b, id, token]() {
          Scope s(b, id);
          std::unique_lock<std::mutex> l(b->m);
          ++b->at_gate;
          b->cv.notify_all();
          b->cv.wait(l, [b] { return b->open; });
          --b->at_gate;
          return payload(id);
        });
        ++gates;
        break;
      case Kind::kYield:
      case Kind::kValue:
        t.value = pool->Queue([b, id, token, naps]() {
          Scope s(b, id);
          if (naps > 20) {
            std::this_thread::sleep_for(std::chrono::microseconds(naps * 10));
          } else {
            for (int k = 0; k < naps; ++k) std::this_thread::yield();
          }
          return payload(id);
        });
        break;
    }
    if (running) ++late;
    tickets.push_back(std::move(t));
    ops.push_back("queue" + std::to_string(static_cast<int>(tickets.back().kind)));
  }

  bool gates_allowed() const { return !opened; }

  void Start() {
    if (running || finished) {
      MUST_THROW("start-twice", pool->Start(), "Start() on a pool which " << (finished ? "finished" : "runs"));
      ops.push_back("start(refused)");
      return;
    }
    {
      std::unique_lock<std::mutex> l(board->m);
      CHECK(board->started.empty(), "ran-before-start", "tasks ran before Start()");
    }
    pool->Start();
    running = true;
    ops.push_back("start");
  }

  void Cancel() {
    // What is certainly pending: everything when nothing was started; what comes behind gates which hold every thread.
    bool all_held = false;
    {
      std::unique_lock<std::mutex> l(board->m);
      all_held = running && board->at_gate == n;
    }
    pool->cancel_pending();
    std::unique_lock<std::mutex> l(board->m);
    for (auto& t : tickets) {
      if (t.must_cancel || t.may_cancel) continue;
      const bool started = board->started.count(t.id) != 0;
      if (started) continue;
      if (!running || all_held) {
        t.must_cancel = true;
        ++cancelled;
      } else {
        t.may_cancel = true;
      }
    }
    ops.push_back(std::string("cancel") + (all_held ? "(held)" : running ? "" : "(idle)"));
  }

  // All threads of a running pool get work at once: waits until as many gates as possible hold threads.
  void WaitGates() {
    if (!running) return;
    std::unique_lock<std::mutex> l(board->m);
    int live = 0;
    for (const auto& t : tickets) {
      if (t.kind == Kind::kGate && !t.must_cancel && !t.may_cancel) ++live;
    }
    if (board->open) return;
    const int expected = std::min(n, live);
    const bool ok = board->cv.wait_for(l, 20s, [&] { return board->at_gate >= expected; });
    const int at_gate = board->at_gate;
    if (!ok) {
      board->open = true;
      board->cv.notify_all();
    }
    l.unlock();
    ops.push_back("gates" + std::to_string(expected));
    if (!ok)
      Bail("threads-idle", "only " + std::to_string(at_gate) + " of the " + std::to_string(expected) +
                               " waiting tasks which a pool of " + std::to_string(n) +
                               " threads must run at once were started");
  }

  // Fails a case without leaving threads stuck.
  void Bail(const std::string& tag, const std::string& msg) {
    NOTE(msg << " | " << pbt::join(ops));
    pbt::fail(tag, msg + " | history: " + pbt::join(ops));
  }

  void Open() {
    std::unique_lock<std::mutex> l(board->m);
    board->open = true;
    opened = true;
    board->cv.notify_all();
    ops.push_back("open");
  }

  bool Settled(const Ticket& t, std::chrono::milliseconds d) {
    switch (t.kind) {
      case Kind::kVoid:
        return t.nothing.wait_for(d) == std::future_status::ready;
      case Kind::kMoveOnly:
        return t.owned.wait_for(d) == std::future_status::ready;
      case Kind::kReference:
        return t.reference.wait_for(d) == std::future_status::ready;
      default:
        return t.value.wait_for(d) == std::future_status::ready;
    }
  }

  // Waits for one task in a running pool.
  void WaitOne() {
    if (!running || tickets.empty()) return;
    if (!opened && gates > 0) return;  // Could be behind gates.
    const Ticket& t = src->pick(tickets);
    ops.push_back("wait" + std::to_string(t.id));
    if (!Settled(t, 20000ms)) Bail("never-ran", "task " + std::to_string(t.id) + " did not run in a running pool");
  }

  void Finish() {
    if (!opened) Open();  // Finish() waits for the tasks.
    pool->Finish();
    const bool was_running = running;
    finished = true;
    running = false;
    ops.push_back("finish");
    std::unique_lock<std::mutex> l(board->m);
    CHECK(board->in_flight == 0, "finish-early",
          "Finish() returned with " << board->in_flight << " tasks running | " << pbt::join(ops));
    if (!was_running) return;
    for (const auto& t : tickets) {
      if (t.may_cancel || t.must_cancel) continue;
      CHECK(board->ended.count(t.id), "finish-early",
            "Finish() returned before task " << t.id << " ran | " << pbt::join(ops));
    }
  }

  void State() {
    CHECK(pool->is_running() == running, "is-running",
          "is_running() is " << pool->is_running() << " | history: " << pbt::join(ops));
  }

  template <typename F, typename G>
  void Result(Ticket* t, bool ran, F&& get, G&& right) {
    const std::string who = "task " + std::to_string(t->id) + " of kind " + std::to_string(static_cast<int>(t->kind)) +
                            " | history: " + pbt::join(ops);
    try {
      get();
      CHECK(ran, "result-without-run", "a result without a run: " << who);
      CHECK(right(), "wrong-result", "wrong result: " << who);
    } catch (const std::future_error& e) {
      CHECK(!ran, "result-lost", "the result of a task which ran was lost: " << who);
      CHECK(e.code() == std::future_errc::broken_promise, "wrong-error", e.what() << ": " << who);
    } catch (const std::runtime_error& e) {
      CHECK(ran && t->kind == Kind::kThrow, "wrong-error", e.what() << ": " << who);
      CHECK(std::string(e.what()) == "task " + std::to_string(t->id), "wrong-exception", e.what() << ": " << who);
    }
  }

  // After the pool is gone.
  void Judge(bool ever_started) {
    CHECK(!board->in_owner, "owner-ran-task", "the thread of the owner ran a task | " << pbt::join(ops));
    CHECK(static_cast<int>(board->threads.size()) <= n, "too-many-threads",
          board->threads.size() << " threads ran tasks of a pool of " << n);
    CHECK(board->max_in_flight <= n, "too-many-at-once", board->max_in_flight << " tasks at once in a pool of " << n);
    for (auto& t : tickets) {
      const int runs = board->started.count(t.id) ? board->started.at(t.id) : 0;
      const std::string who = "task " + std::to_string(t.id) + " | history: " + pbt::join(ops);
      CHECK(runs <= 1, "ran-twice", "ran " << runs << " times: " << who);
      if (t.must_cancel) {
        CHECK(runs == 0, "cancelled-ran", "a cancelled task ran: " << who);
      } else if (!t.may_cancel && ever_started) {
        CHECK(runs == 1, "never-ran", "a task never ran: " << who);
      }
      CHECK(Settled(t, 0ms), "unsettled", "the result is not ready after the end of the pool: " << who);
      int v = 0;
      switch (t.kind) {
        case Kind::kVoid:
          Result(&t, runs == 1, [&] { t.nothing.get(); }, [] { return true; });
          break;
        case Kind::kMoveOnly:
          Result(&t, runs == 1, [&] { v = *t.owned.get(); }, [&] { return v == payload(t.id); });
          break;
        case Kind::kReference: {
          int* p = nullptr;
          Result(&t, runs == 1, [&] { p = &t.reference.get(); }, [&] { return p == &board->started.at(t.id); });
          break;
        }
        case Kind::kThrow:
          Result(&t, runs == 1, [&] { t.value.get(); }, [&] { return false; });
          break;
        default:
          Result(&t, runs == 1, [&] { v = t.value.get(); }, [&] { return v == payload(t.id); });
      }
      // Getting a result releases what it shares with the task.
      CHECK(t.functor.expired() || t.kind == Kind::kMoveOnly, "functor-kept", "the functor outlives the pool: " << who);
    }
  }

  pbt::Src* src;
  int n;
  std::unique_ptr<Board> board = std::make_unique<Board>();
  std::unique_ptr<ThreadPool> pool;
  std::vector<Ticket> tickets;
  std::vector<std::string> ops;
  bool running{false}, finished{false}, opened{false};
  int gates{0}, throws{0}, late{0}, cancelled{0};
};

// The moments at which threads start to wait against the moments at which the owner starts, queues, cancels or
// finishes: many rounds with delays around those moments.
PROBE_WITHIN(P28, races, 400, 20000, 15.) {
  const int rounds = 60;
  const int n = static_cast<int>(src.i(1, 4));
  const uint64_t scale = 1ull << src.i(0, 12);
  const bool unstarted = src.b(1, 6);
  uint64_t state = src.draw(~0ull >> 1);
  const auto rnd = [&state](uint64_t m) {
    state = state * 6364136223846793005ull + 1442695040888963407ull;
    return (state >> 33) % (m + 1);
  };
  const auto spin = [&] {
    volatile uint64_t v = 0;
    for (uint64_t k = rnd(scale); k > 0; --k) v = v + 1;
  };
  for (int r = 0; r < rounds; ++r) {
    std::atomic<int> ran{0};
    int queued = 0;
    bool cancelled = false;
    {
      ThreadPool pool(static_cast<std::size_t>(n));
      std::vector<std::future<int>> results;
      const auto queue = [&] {
        for (uint64_t k = rnd(3); k > 0; --k) {
          ++queued;
          results.push_back(pool.Queue([&ran] { return ++ran; }));
          if (rnd(1)) spin();
        }
      };
      queue();
      spin();
      if (!unstarted) {
        pool.Start();
        spin();
        queue();
        if (rnd(3) == 0) {
          pool.cancel_pending();
          cancelled = true;
        }
        spin();
        // Threads which wait for tasks must wake up.
        if (!cancelled && rnd(3) == 0) {
          for (auto& f : results) {
            CHECK(f.wait_for(10s) == std::future_status::ready, "never-ran",
                  "a task did not run in a running pool of " << n << " threads");
          }
        }
      }
      if (rnd(1)) pool.Finish();
    }
    if (!unstarted && !cancelled) {
      CHECK(ran == queued, "never-ran", ran << " tasks of " << queued << " ran, pool of " << n << " threads");
    }
    CHECK(ran <= queued, "ran-twice", ran << " runs of " << queued << " tasks, pool of " << n << " threads");
  }
  pbt::nontrivial();
}

// Tasks which wait for one another, queued while the threads of the pool are in all kinds of states: as many as there
// are threads are run at once.
PROBE_WITHIN(P28, together, 300, 20000, 15.) {
  const int n = static_cast<int>(src.i(2, 6));
  const int rounds = static_cast<int>(src.i(1, 12));
  struct Meeting {
    std::mutex m;
    std::condition_variable cv;
    int inside{0};
    bool over{false};
  };
  std::vector<std::shared_ptr<Meeting>> meetings;
  ThreadPool pool(static_cast<std::size_t>(n));
  // Lets go of the threads when the case fails.
  struct Release {
    std::vector<std::shared_ptr<Meeting>>* meetings;
    ~Release() {
      for (auto& x : *meetings) {
        std::unique_lock<std::mutex> l(x->m);
        x->over = true;
        x->cv.notify_all();
      }
    }
  } release{&meetings};
  const auto nap = [&src] {
    switch (src.weighted({2, 1, 1})) {
      case 0:
        break;
      case 1:
        std::this_thread::sleep_for(std::chrono::microseconds(src.i(0, 200)));
        break;
      case 2:
        std::this_thread::sleep_for(std::chrono::milliseconds(src.i(1, 4)));
        break;
    }
  };
  std::atomic<int> other{0};
  int others = 0;
  const bool late = src.b(1, 4);
  if (!late) pool.Start();
  for (int r = 0; r < rounds; ++r) {
    auto x = std::make_shared<Meeting>();
    meetings.push_back(x);
    const int k = static_cast<int>(src.i(2, n));
    std::vector<std::future<bool>> met;
    nap();
    for (int j = 0; j < k; ++j) {
      if (src.b(1, 5)) {
        ++others;
        pool.Queue([&other] { ++other; });
      }
      met.push_back(pool.Queue([x, k] {
        std::unique_lock<std::mutex> l(x->m);
        if (++x->inside == k) x->over = true;
        x->cv.notify_all();
        x->cv.wait(l, [&x] { return x->over; });
        return x->inside == k;
      }));
      if (src.b(1, 5)) nap();
    }
    if (late && r == 0) {
      nap();
      pool.Start();
    }
    for (auto& f : met) {
      CHECK(f.wait_for(10s) == std::future_status::ready, "threads-idle",
            k << " tasks which wait for one another are not run at once by " << n << " threads, round " << r);
    }
    for (auto& f : met) CHECK(f.get(), "threads-idle", "a task was let go alone");
  }
  pool.Finish();
  CHECK(other == others, "never-ran", other << " tasks of " << others << " ran");
  pbt::nontrivial();
  pbt::label("rounds", rounds);
}

PROBE_WITHIN(P28, histories, 50000, 2000000, 40.) {
  History h(&src);
  h.board->owner = std::this_thread::get_id();
  h.pool = std::make_unique<ThreadPool>(static_cast<std::size_t>(h.n));
  bool ever_started = false;
  // Stuck tasks must not outlive a failure which is reported in the middle of the history.
  struct Opener {
    History* h;
    ~Opener() {
      {
        std::unique_lock<std::mutex> l(h->board->m);
        h->board->open = true;
        h->board->cv.notify_all();
      }
      h->pool.reset();
    }
  } opener{&h};

  const int burst = static_cast<int>(src.b(1, 50) ? src.i(60, 300) : src.i(0, 12));
  for (int k = 0; k < burst; ++k) h.Queue();
  const int steps = static_cast<int>(src.i(0, 12));
  for (int k = 0; k < steps && !h.finished; ++k) {
    switch (src.weighted({4, 8, 2, 2, 2, 2, 1, 1})) {
      case 0:
        if (!h.running) ever_started = true;
        h.Start();
        break;
      case 1: {
        const int more = static_cast<int>(src.i(1, 4));
        for (int j = 0; j < more; ++j) h.Queue();
        break;
      }
      case 2:
        h.WaitGates();
        break;
      case 3:
        if (h.running) h.Open();
        break;
      case 4:
        h.Cancel();
        break;
      case 5:
        h.WaitOne();
        break;
      case 6:
        h.Finish();
        break;
      case 7:
        std::this_thread::sleep_for(std::chrono::microseconds(src.i(0, 300)));
        break;
    }
    h.State();
  }
  if (!h.finished && !ever_started && src.b(2, 3)) {
    h.Start();
    ever_started = true;
    h.State();
  }
  if (!h.finished && ever_started && src.b()) h.WaitGates();
  if (!h.finished && src.b(2, 3)) {
    h.Finish();
    h.State();
  }
  if (h.finished) {
    MUST_THROW("queue-finished", h.pool->Queue([] {}), "Queue() on a pool which finished");
    MUST_THROW("start-finished", h.pool->Start(), "Start() on a pool which finished");
    if (src.b(1, 4)) h.pool->Finish();
    if (src.b(1, 4)) h.pool->cancel_pending();
  } else if (!h.opened) {
    h.Open();
  }
  h.ops.push_back("destroy");
  h.pool.reset();
  NOTE(h.n << " threads: " << pbt::join(h.ops));
  h.Judge(ever_started);
  if (h.tickets.size() >= 3 && h.gates + h.throws + h.late + h.cancelled > 0) pbt::nontrivial();
  pbt::label("tasks", static_cast<long>(h.tickets.size()));
  if (!ever_started) pbt::label("never started");
  if (h.cancelled) pbt::label("certain cancellations");
  if (h.board->max_in_flight == h.n) pbt::label("all threads at once");
}

PROBE(P28, no_threads, 10, 100) {
  (void)src;
  MUST_THROW("no-threads", ThreadPool(0), "a pool of no threads");
}

}  // namespace
