#pragma once
#include "handles.hpp"
namespace gmlc::libguarded {
template<typename T, typename M = std::shared_mutex>
class shared_guarded_opt {
  public:
    using handle = lock_handle<T, M>;
    using shared_handle = shared_lock_handle<T, M>;
    template<typename... Us> explicit shared_guarded_opt(bool en, Us&&... d): m_obj(std::forward<Us>(d)...), enabled(en) {}
    shared_guarded_opt(): m_obj(), enabled(true) {}
    handle lock() { return enabled ? handle(&m_obj, m_mutex) : handle(&m_obj, std::unique_lock<M>()); }
    shared_handle lock_shared() const { return enabled ? shared_handle(&m_obj, m_mutex) : shared_handle(&m_obj, typename shared_handle::L()); }
    shared_handle lock() const { return lock_shared(); }
    T load() const { auto h = lock_shared(); return T(*h); }
    template<typename O> void store(O&& o) { auto h = lock(); *h = std::forward<O>(o); }
    template<typename O> void operator=(O&& o) { store(std::forward<O>(o)); }

  private:
    T m_obj;
    bool enabled;
    mutable M m_mutex;
};
}  // namespace gmlc::libguarded
