#pragma once
#include "handles.hpp"
namespace gmlc::libguarded {
template<typename T, typename M = std::mutex>
class guarded {
  public:
    using handle = lock_handle<T, M>;
    template<typename... Us> guarded(Us&&... d): m_obj(std::forward<Us>(d)...) {}
    handle lock() { return handle(&m_obj, m_mutex); }
    handle try_lock() { std::unique_lock<M> l(m_mutex, std::try_to_lock); if (l.owns_lock()) return handle(&m_obj, std::move(l)); return handle(); }
    T load() { auto h = lock(); return T(*h); }
    template<typename O> void store(O&& o) { auto h = lock(); *h = std::forward<O>(o); }
    template<typename O> void operator=(O&& o) { store(std::forward<O>(o)); }

  private:
    T m_obj;
    M m_mutex;
};
}  // namespace gmlc::libguarded
