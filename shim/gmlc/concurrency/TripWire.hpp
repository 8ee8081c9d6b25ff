#pragma once
#include <atomic>
#include <memory>
namespace gmlc::concurrency {
using TriplineType = std::shared_ptr<std::atomic<bool>>;
namespace detail { inline TriplineType& line() { static TriplineType l = std::make_shared<std::atomic<bool>>(false); return l; } }
#define DECLARE_TRIPLINE()
#define DECLARE_INDEXED_TRIPLINES(N)
class TripWireDetector {
  public:
    TripWireDetector(): l(detail::line()) {}
    bool isTripped() const noexcept { return l->load(std::memory_order_acquire); }
  private:
    TriplineType l;
};
class TripWireTrigger {
  public:
    TripWireTrigger(): l(detail::line()) {}
    ~TripWireTrigger() { if (l) l->store(true, std::memory_order_release); }
    TripWireTrigger(const TripWireTrigger&) = delete;
    TripWireTrigger& operator=(const TripWireTrigger&) = delete;
  private:
    TriplineType l;
};
}  // namespace gmlc::concurrency
