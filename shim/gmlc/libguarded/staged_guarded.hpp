#pragma once
#include "handles.hpp"
#include <atomic>
namespace gmlc::libguarded {
template<typename T, typename M = std::mutex>
class staged_guarded {
  public:
    using handle = lock_handle<T, M>;
    using shared_handle = shared_lock_handle<T, M>;
    template<typename... Us> staged_guarded(Us&&... d): m_obj(std::forward<Us>(d)...) {}
    handle lock() { return constant ? handle(&m_obj, std::unique_lock<M>()) : handle(&m_obj, m_mutex); }
    shared_handle lock() const { return constant ? shared_handle(&m_obj, typename shared_handle::L()) : shared_handle(&m_obj, m_mutex); }
    shared_handle lock_shared() const { return lock(); }
    void transition() { constant = true; }

  private:
    T m_obj;
    std::atomic<bool> constant{false};
    mutable M m_mutex;
};
}  // namespace gmlc::libguarded
