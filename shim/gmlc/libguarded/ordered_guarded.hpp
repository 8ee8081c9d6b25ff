#pragma once
#include "handles.hpp"
namespace gmlc::libguarded {
template<typename T, typename M = std::shared_mutex>
class ordered_guarded {
  public:
    using shared_handle = shared_lock_handle<T, M>;
    template<typename... Us> ordered_guarded(Us&&... d): m_obj(std::forward<Us>(d)...) {}
    template<typename F> auto modify(F&& f) { std::unique_lock<M> l(m_mutex); return f(m_obj); }
    template<typename F> auto read(F&& f) const { std::unique_lock<M> l(m_mutex); return f(m_obj); }
    shared_handle lock_shared() const { return shared_handle(&m_obj, m_mutex); }
    T load() const { auto h = lock_shared(); return T(*h); }
    template<typename O> void store(O&& o) { std::unique_lock<M> l(m_mutex); m_obj = std::forward<O>(o); }
    template<typename O> void operator=(O&& o) { store(std::forward<O>(o)); }

  private:
    T m_obj;
    mutable M m_mutex;
};
}  // namespace gmlc::libguarded
