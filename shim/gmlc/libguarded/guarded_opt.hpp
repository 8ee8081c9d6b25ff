#pragma once
#include "handles.hpp"
namespace gmlc::libguarded {
template<typename T, typename M = std::mutex>
class guarded_opt {
  public:
    using handle = lock_handle<T, M>;
    template<typename... Us> explicit guarded_opt(bool en, Us&&... d): m_obj(std::forward<Us>(d)...), enabled(en) {}
    handle lock() { return enabled ? handle(&m_obj, m_mutex) : handle(&m_obj, std::unique_lock<M>()); }
    T load() { auto h = lock(); return T(*h); }
    template<typename O> void store(O&& o) { auto h = lock(); *h = std::forward<O>(o); }

  private:
    T m_obj;
    bool enabled;
    M m_mutex;
};
}  // namespace gmlc::libguarded
