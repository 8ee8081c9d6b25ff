#pragma once
#include <memory>
#include <mutex>
#include <shared_mutex>
#include <type_traits>
#include <utility>
namespace gmlc::libguarded {
template<typename T, typename M>
class lock_handle {
  public:
    lock_handle(T* v, M& m): data(v), lk(m) {}
    lock_handle(T* v, std::unique_lock<M>&& l): data(v), lk(std::move(l)) {}
    lock_handle() = default;
    lock_handle(lock_handle&&) noexcept = default;
    lock_handle& operator=(lock_handle&&) noexcept = default;
    T* operator->() const noexcept { return data; }
    T& operator*() const noexcept { return *data; }
    operator bool() const noexcept { return data != nullptr; }
    void unlock() { data = nullptr; if (lk.mutex() != nullptr) lk.unlock(); }
    void reset() { unlock(); }
    T* get() const { return data; }
    auto begin() { return data->begin(); }
    auto end() { return data->end(); }

  private:
    T* data{nullptr};
    std::unique_lock<M> lk;
};
template<typename T, typename M>
class shared_lock_handle {
  public:
    using L = std::conditional_t<std::is_same_v<M, std::shared_mutex> || std::is_same_v<M, std::shared_timed_mutex>, std::shared_lock<M>, std::unique_lock<M>>;
    shared_lock_handle(const T* v, M& m): data(v), lk(m) {}
    shared_lock_handle(const T* v, L&& l): data(v), lk(std::move(l)) {}
    shared_lock_handle() = default;
    shared_lock_handle(shared_lock_handle&&) noexcept = default;
    shared_lock_handle& operator=(shared_lock_handle&&) noexcept = default;
    const T* operator->() const noexcept { return data; }
    const T& operator*() const noexcept { return *data; }
    operator bool() const noexcept { return data != nullptr; }
    void unlock() { data = nullptr; if (lk.mutex() != nullptr) lk.unlock(); }
    auto begin() const { return data->begin(); }
    auto end() const { return data->end(); }

  private:
    const T* data{nullptr};
    L lk;
};
}  // namespace gmlc::libguarded
