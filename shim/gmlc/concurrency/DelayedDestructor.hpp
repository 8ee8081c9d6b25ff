#pragma once
#ifdef ENABLE_TRIPWIRE
#include "TripWire.hpp"
#endif
#include <algorithm>
#include <chrono>
#include <functional>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>
namespace gmlc::concurrency {
template<class X>
class DelayedDestructor {
  public:
    DelayedDestructor() = default;
    explicit DelayedDestructor(std::function<void(std::shared_ptr<X>&)> f): callBeforeDelete(std::move(f)) {}
    ~DelayedDestructor() { try { destroyObjects(); } catch (...) {} }
    size_t destroyObjects()
    {
        std::unique_lock<std::mutex> l(m);
        std::vector<std::shared_ptr<X>> dead;
        for (auto it = v.begin(); it != v.end();) { if (it->use_count() == 1) { dead.push_back(std::move(*it)); it = v.erase(it); } else ++it; }
        auto remaining = v.size();
        l.unlock();
        if (callBeforeDelete) for (auto& e : dead) callBeforeDelete(e);
        dead.clear();
        return remaining;
    }
    size_t destroyObjects(std::chrono::milliseconds delay)
    {
        auto cnt = destroyObjects();
        auto end = std::chrono::steady_clock::now() + delay;
        while (cnt > 0 && std::chrono::steady_clock::now() < end) { std::this_thread::sleep_for(std::chrono::milliseconds(10)); cnt = destroyObjects(); }
        return cnt;
    }
    void addObjectsToBeDestroyed(std::shared_ptr<X> o) { std::lock_guard<std::mutex> l(m); v.push_back(std::move(o)); }
    size_t size() const { std::lock_guard<std::mutex> l(m); return v.size(); }

  private:
    mutable std::mutex m;
    std::vector<std::shared_ptr<X>> v;
    std::function<void(std::shared_ptr<X>&)> callBeforeDelete;
};
}  // namespace gmlc::concurrency
