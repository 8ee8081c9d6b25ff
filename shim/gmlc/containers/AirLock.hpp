#pragma once
#include <atomic>
#include <condition_variable>
#include <mutex>
#include <optional>
namespace gmlc::containers {
template<typename T, class MUTEX = std::mutex, class COND = std::condition_variable>
class AirLock {
  public:
    template<class Z> bool try_load(Z&& val)
    {
        if (!loaded) { std::lock_guard<MUTEX> lock(door); if (!loaded) { data = std::forward<Z>(val); loaded = true; return true; } }
        return false;
    }
    template<class Z> void load(Z&& val)
    {
        std::unique_lock<MUTEX> lock(door);
        condition.wait(lock, [this] { return !loaded; });
        data = std::forward<Z>(val);
        loaded = true;
    }
    std::optional<T> try_unload()
    {
        if (loaded) { std::lock_guard<MUTEX> lock(door); if (loaded) { std::optional<T> v{std::move(data)}; loaded = false; condition.notify_one(); return v; } }
        return std::nullopt;
    }
    bool isLoaded() const { return loaded; }

  private:
    std::atomic_bool loaded{false};
    MUTEX door;
    T data;
    COND condition;
};
}  // namespace gmlc::containers
