// stand-in for qclient's queue (submodule not present): a blocking queue whose iterator follows the items from the front
#pragma once
#include <condition_variable>
#include <deque>
#include <mutex>
namespace qclient {
template<typename T, size_t N> class WaitableQueue {
public:
  class Iterator {
  public:
    Iterator(WaitableQueue *q) : queue(q) {}
    T *getItemBlockOrNull() {
      std::unique_lock<std::mutex> l(queue->mtx); queue->cv.wait(l, [&] { return !queue->blocking || position < queue->base + queue->items.size(); });
      return position < queue->base + queue->items.size() ? &queue->items[position - queue->base] : nullptr;
    }
    void next() { position++; }
  private:
    WaitableQueue *queue; size_t position = 0;
  };
  Iterator begin() { return Iterator(this); }
  template<typename... A> int64_t emplace_back(A &&...a) { std::lock_guard<std::mutex> l(mtx); items.emplace_back(std::forward<A>(a)...); cv.notify_all(); return base + items.size() - 1; }
  void pop_front() { std::lock_guard<std::mutex> l(mtx); items.pop_front(); base++; }
  void setBlockingMode(bool b) { std::lock_guard<std::mutex> l(mtx); blocking = b; cv.notify_all(); }
private:
  std::mutex mtx; std::condition_variable cv; std::deque<T> items; size_t base = 0; bool blocking = true;
};
}
