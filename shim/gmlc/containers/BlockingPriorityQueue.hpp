#pragma once
#include <chrono>
#include <condition_variable>
#include <deque>
#include <mutex>
#include <optional>
namespace gmlc::containers {
template<typename T, class MUTEX = std::mutex, class COND = std::condition_variable>
class BlockingPriorityQueue {
  public:
    BlockingPriorityQueue() = default;
    void clear() { std::lock_guard<MUTEX> l(m); q.clear(); p.clear(); }
    void reserve(size_t) {}
    template<class Z> void push(Z&& val) { { std::lock_guard<MUTEX> l(m); q.push_back(std::forward<Z>(val)); } c.notify_all(); }
    template<class Z> void pushPriority(Z&& val) { { std::lock_guard<MUTEX> l(m); p.push_back(std::forward<Z>(val)); } c.notify_all(); }
    template<class... A> void emplace(A&&... a) { { std::lock_guard<MUTEX> l(m); q.emplace_back(std::forward<A>(a)...); } c.notify_all(); }
    template<class... A> void emplacePriority(A&&... a) { { std::lock_guard<MUTEX> l(m); p.emplace_back(std::forward<A>(a)...); } c.notify_all(); }
    std::optional<T> try_pop() { std::lock_guard<MUTEX> l(m); if (!avail()) return std::nullopt; return std::optional<T>{take()}; }
    T pop() { std::unique_lock<MUTEX> l(m); c.wait(l, [this] { return avail(); }); return take(); }
    template<typename TIME> std::optional<T> pop(TIME timeout) { std::unique_lock<MUTEX> l(m); if (!c.wait_for(l, timeout, [this] { return avail(); })) return std::nullopt; return std::optional<T>{take()}; }
    bool empty() const { std::lock_guard<MUTEX> l(m); return !avail(); }

  private:
    bool avail() const { return !q.empty() || !p.empty(); }
    T take() { auto& s = p.empty() ? q : p; T r{std::move(s.front())}; s.pop_front(); return r; }
    mutable MUTEX m;
    std::deque<T> q, p;
    COND c;
};
}  // namespace gmlc::containers
