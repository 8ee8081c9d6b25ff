#pragma once
#include <chrono>
#include <condition_variable>
#include <deque>
#include <functional>
#include <mutex>
#include <optional>
namespace gmlc::containers {
template<typename T, class MUTEX = std::mutex, class COND = std::condition_variable>
class BlockingQueue {
  public:
    BlockingQueue() = default;
    void clear() { std::lock_guard<MUTEX> l(m); q.clear(); }
    void reserve(size_t) {}
    template<class Z> void push(Z&& val) { { std::lock_guard<MUTEX> l(m); q.push_back(std::forward<Z>(val)); } c.notify_all(); }
    template<class... A> void emplace(A&&... a) { { std::lock_guard<MUTEX> l(m); q.emplace_back(std::forward<A>(a)...); } c.notify_all(); }
    template<class Z> void pushAndCall(Z&& val, std::function<void()> f) { { std::lock_guard<MUTEX> l(m); q.push_back(std::forward<Z>(val)); } f(); c.notify_all(); }
    std::optional<T> try_pop() { std::lock_guard<MUTEX> l(m); if (q.empty()) return std::nullopt; std::optional<T> r{std::move(q.front())}; q.pop_front(); return r; }
    std::optional<T> try_peek() const { std::lock_guard<MUTEX> l(m); if (q.empty()) return std::nullopt; return std::optional<T>{q.front()}; }
    T pop() { std::unique_lock<MUTEX> l(m); c.wait(l, [this] { return !q.empty(); }); T r{std::move(q.front())}; q.pop_front(); return r; }
    template<typename TIME> std::optional<T> pop(TIME timeout) { std::unique_lock<MUTEX> l(m); if (!c.wait_for(l, timeout, [this] { return !q.empty(); })) return std::nullopt; std::optional<T> r{std::move(q.front())}; q.pop_front(); return r; }
    size_t size() const { std::lock_guard<MUTEX> l(m); return q.size(); }
    bool empty() const { std::lock_guard<MUTEX> l(m); return q.empty(); }

  private:
    mutable MUTEX m;
    std::deque<T> q;
    COND c;
};
}  // namespace gmlc::containers
