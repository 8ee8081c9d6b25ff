#pragma once
#include "handles.hpp"
namespace gmlc::libguarded {
template<typename T, typename M = std::shared_mutex>
class shared_guarded {
  public:
    using handle = lock_handle<T, M>;
    using shared_handle = shared_lock_handle<T, M>;
    template<typename... Us> shared_guarded(Us&&... d): m_obj(std::forward<Us>(d)...) {}
    handle lock() { return handle(&m_obj, m_mutex); }
    handle try_lock() { std::unique_lock<M> l(m_mutex, std::try_to_lock); if (l.owns_lock()) return handle(&m_obj, std::move(l)); return handle(); }
    shared_handle lock_shared() const { return shared_handle(&m_obj, m_mutex); }
    shared_handle lock() const { return lock_shared(); }
    T load() const { auto h = lock_shared(); return T(*h); }
    template<typename O> void store(O&& o) { auto h = lock(); *h = std::forward<O>(o); }
    template<typename O> void operator=(O&& o) { store(std::forward<O>(o)); }

  private:
    T m_obj;
    mutable M m_mutex;
};
}  // namespace gmlc::libguarded
