// Stand-in for cpp-taskflow: the same interface, run by a small pool of threads which pick among the ready tasks at
// random and dawdle at random, so that one graph is run under many interleavings. A task that throws ends the process,
// as with the library (its workers do not catch). Tasks on a cycle never become ready and are not run.
#pragma once
#include <algorithm>
#include <array>
#include <cassert>
#include <fstream>
#include <list>
#include <map>
#include <numeric>
#include <optional>
#include <queue>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <functional>
#include <future>
#include <memory>
#include <mutex>
#include <random>
#include <string>
#include <thread>
#include <vector>
namespace tf {
struct Control {
  int threads = 4;
  int dawdle_us = 0;
  std::mt19937_64 rng{1};
  std::mutex mutex;
  std::vector<size_t> order;  // tasks in the order they were started, of the last run
  static Control& get() { static Control c; return c; }
};
struct Node {
  std::function<void()> work;
  std::vector<Node*> next;
  size_t index = 0, waits = 0;
};
class Task {
 public:
  Task() = default;
  explicit Task(Node* n) : node_(n) {}
  template <class... Ts> Task& precede(Ts&&... ts) { (link(ts), ...); return *this; }
  Task& name(const std::string&) { return *this; }
  template <class... Ts> Task& succeed(Ts&&... ts) { (ts.link(*this), ...); return *this; }
 private:
  void link(Task& t) { node_->next.push_back(t.node_); }
  Node* node_ = nullptr;
};
class Taskflow {
 public:
  Taskflow() = default;
  explicit Taskflow(const std::string&) {}
  size_t num_tasks() const { return nodes_.size(); }
  bool empty() const { return nodes_.empty(); }
  template <class C> Task emplace(C&& c) {
    nodes_.emplace_back(std::make_unique<Node>());
    nodes_.back()->work = std::forward<C>(c);
    nodes_.back()->index = nodes_.size() - 1;
    return Task(nodes_.back().get());
  }
 private:
  friend class Executor;
  std::vector<std::unique_ptr<Node>> nodes_;
};
class Executor {
 public:
  explicit Executor(size_t = 0) {}
  std::future<void> run(Taskflow& flow) {
    std::promise<void> done;
    auto result = done.get_future();
    std::vector<Node*> ready;
    for (auto& n : flow.nodes_) n->waits = 0;
    for (auto& n : flow.nodes_) for (auto* m : n->next) m->waits++;
    for (auto& n : flow.nodes_) if (!n->waits) ready.push_back(n.get());
    std::mutex mutex;
    std::condition_variable wake;
    size_t running = 0;
    auto& control = Control::get();
    std::vector<uint64_t> seeds;
    int threads, dawdle;
    {
      std::lock_guard<std::mutex> l(control.mutex);
      threads = control.threads, dawdle = control.dawdle_us;
      for (int i = 0; i < threads; i++) seeds.push_back(control.rng());
      control.order.clear();
    }
    auto worker = [&](uint64_t seed) {
      std::mt19937_64 rng(seed);
      std::unique_lock<std::mutex> lock(mutex);
      while (true) {
        wake.wait(lock, [&] { return !ready.empty() || !running; });
        if (ready.empty()) return;
        size_t i = rng() % ready.size();
        Node* n = ready[i];
        ready.erase(ready.begin() + i);
        running++;
        {
          std::lock_guard<std::mutex> l(control.mutex);
          control.order.push_back(n->index);
        }
        lock.unlock();
        if (dawdle && rng() % 2) std::this_thread::sleep_for(std::chrono::microseconds(rng() % dawdle));
        n->work();
        if (dawdle && rng() % 3 == 0) std::this_thread::sleep_for(std::chrono::microseconds(rng() % dawdle));
        lock.lock();
        running--;
        for (auto* m : n->next) if (!--m->waits) ready.push_back(m);
        wake.notify_all();
      }
    };
    std::vector<std::thread> pool;
    for (auto s : seeds) pool.emplace_back(worker, s);
    for (auto& t : pool) t.join();
    done.set_value();
    return result;
  }
};
}  // namespace tf
