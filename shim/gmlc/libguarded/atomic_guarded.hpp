#pragma once
#include "handles.hpp"
namespace gmlc::libguarded {
template<typename T, typename M = std::mutex>
class atomic_guarded {
  public:
    template<typename... Us> atomic_guarded(Us&&... d): m_obj(std::forward<Us>(d)...) {}
    T load() const { std::lock_guard<M> g(m_mutex); return T(m_obj); }
    operator T() const { return load(); }
    template<typename O> void store(O&& o) { std::lock_guard<M> g(m_mutex); m_obj = std::forward<O>(o); }
    template<typename O> void operator=(O&& o) { store(std::forward<O>(o)); }
    template<typename O> T exchange(O&& o) { std::lock_guard<M> g(m_mutex); T old = std::move(m_obj); m_obj = std::forward<O>(o); return old; }

  private:
    T m_obj;
    mutable M m_mutex;
};
}  // namespace gmlc::libguarded
