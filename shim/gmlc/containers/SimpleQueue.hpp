#pragma once
#include <deque>
#include <mutex>
#include <optional>
namespace gmlc::containers {
template<typename T, class MUTEX = std::mutex>
class SimpleQueue {
  public:
    SimpleQueue() = default;
    SimpleQueue(SimpleQueue&& o) noexcept: q(std::move(o.q)) {}
    SimpleQueue& operator=(SimpleQueue&& o) noexcept { std::lock_guard<MUTEX> l(m); q = std::move(o.q); return *this; }
    bool empty() const { std::lock_guard<MUTEX> l(m); return q.empty(); }
    size_t size() const { std::lock_guard<MUTEX> l(m); return q.size(); }
    void clear() { std::lock_guard<MUTEX> l(m); q.clear(); }
    template<class Z> void push(Z&& v) { std::lock_guard<MUTEX> l(m); q.push_back(std::forward<Z>(v)); }
    template<class... A> void emplace(A&&... a) { std::lock_guard<MUTEX> l(m); q.emplace_back(std::forward<A>(a)...); }
    std::optional<T> pop() { std::lock_guard<MUTEX> l(m); if (q.empty()) return std::nullopt; std::optional<T> r{std::move(q.front())}; q.pop_front(); return r; }
    std::optional<T> try_pop() { return pop(); }
    std::optional<T> peek() const { std::lock_guard<MUTEX> l(m); if (q.empty()) return std::nullopt; return std::optional<T>{q.front()}; }

  private:
    mutable MUTEX m;
    std::deque<T> q;
};
}  // namespace gmlc::containers
