#pragma once
#include "handles.hpp"
namespace gmlc::libguarded {
template<typename T, typename M = std::mutex>
class cow_guarded {
  public:
    class handle {
      public:
        explicit handle(cow_guarded* p): parent(p), lk(p->m_wmutex), copy(std::make_shared<T>(*p->get())) {}
        ~handle() { if (parent != nullptr && copy) { std::lock_guard<M> g(parent->m_mutex); parent->m_obj = copy; } }
        handle(handle&& o) noexcept: parent(o.parent), lk(std::move(o.lk)), copy(std::move(o.copy)) { o.parent = nullptr; }
        T* operator->() const { return copy.get(); }
        T& operator*() const { return *copy; }
      private:
        cow_guarded* parent;
        std::unique_lock<M> lk;
        std::shared_ptr<T> copy;
    };
    using shared_handle = std::shared_ptr<const T>;
    template<typename... Us> cow_guarded(Us&&... d): m_obj(std::make_shared<T>(std::forward<Us>(d)...)) {}
    handle lock() { return handle(this); }
    shared_handle lock_shared() const { return get(); }
    T load() const { return T(*get()); }
    template<typename O> void store(O&& o) { auto h = lock(); *h = std::forward<O>(o); }

  private:
    std::shared_ptr<T> get() const { std::lock_guard<M> g(m_mutex); return m_obj; }
    std::shared_ptr<T> m_obj;
    mutable M m_mutex;
    M m_wmutex;
};
}  // namespace gmlc::libguarded
