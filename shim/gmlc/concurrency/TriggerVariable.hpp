#pragma once
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <mutex>
namespace gmlc::concurrency {
class TriggerVariable {
  public:
    explicit TriggerVariable(bool active = false): activated(active) {}
    bool activate() { std::lock_guard<std::mutex> l(m); if (activated) return false; activated = true; triggered = false; ca.notify_all(); return true; }
    bool trigger() { std::lock_guard<std::mutex> l(m); if (activated) { triggered = true; ct.notify_all(); return true; } return false; }
    bool isTriggered() const { return triggered; }
    bool isActive() const { return activated; }
    bool wait() const { std::unique_lock<std::mutex> l(m); if (activated) ct.wait(l, [this] { return triggered.load(); }); return true; }
    bool wait_for(const std::chrono::milliseconds& d) const { std::unique_lock<std::mutex> l(m); if (activated) return ct.wait_for(l, d, [this] { return triggered.load(); }); return true; }
    void waitActivation() const { std::unique_lock<std::mutex> l(m); ca.wait(l, [this] { return activated.load(); }); }
    bool wait_forActivation(const std::chrono::milliseconds& d) const { std::unique_lock<std::mutex> l(m); return ca.wait_for(l, d, [this] { return activated.load(); }); }
    void reset() { std::lock_guard<std::mutex> l(m); activated = false; triggered = false; }

  private:
    std::atomic<bool> triggered{false};
    mutable std::mutex m;
    mutable std::condition_variable ct, ca;
    std::atomic<bool> activated;
};
}  // namespace gmlc::concurrency
