#pragma once
#include "MappedVector.hpp"
namespace gmlc::containers {
template<class VType, class S1, class S2>
class DualMappedPointerVector {
  public:
    template<typename... Us> std::optional<size_t> insert(const S1& s1, const S2& s2, Us&&... d)
    {
        if (l1.find(s1) != l1.end() || l2.find(s2) != l2.end()) return std::nullopt;
        auto index = store.size();
        store.push_back(std::make_unique<VType>(std::forward<Us>(d)...));
        l1.emplace(s1, index); l2.emplace(s2, index);
        return index;
    }
    template<typename... Us> std::optional<size_t> insert(const S1& s1, std::nullptr_t, Us&&... d)
    {
        if (l1.find(s1) != l1.end()) return std::nullopt;
        auto index = store.size();
        store.push_back(std::make_unique<VType>(std::forward<Us>(d)...));
        l1.emplace(s1, index);
        return index;
    }
    template<typename... Us> std::optional<size_t> insert(std::nullptr_t, const S2& s2, Us&&... d)
    {
        if (l2.find(s2) != l2.end()) return std::nullopt;
        auto index = store.size();
        store.push_back(std::make_unique<VType>(std::forward<Us>(d)...));
        l2.emplace(s2, index);
        return index;
    }
    template<class K> VType* find(const K& k) const { return const_cast<DualMappedPointerVector*>(this)->ifind(k); }
    VType* operator[](size_t i) const { return i < store.size() ? store[i].get() : nullptr; }
    VType* back() const { return store.back().get(); }
    void clear() { store.clear(); l1.clear(); l2.clear(); }
    auto begin() { return store.begin(); }
    auto end() { return store.end(); }
    auto begin() const { return store.cbegin(); }
    auto end() const { return store.cend(); }
    size_t size() const { return store.size(); }
    bool empty() const { return store.empty(); }
    void removeIndex(size_t i)
    {
        if (i >= store.size()) return;
        store.erase(store.begin() + static_cast<std::ptrdiff_t>(i));
        fix(l1, i); fix(l2, i);
    }
    template<class K> void remove(const K& k) { if (auto* p = ifind(k)) { for (size_t i = 0; i < store.size(); ++i) if (store[i].get() == p) { removeIndex(i); return; } } }

  private:
    template<class MM> static void fix(MM& m, size_t i) { for (auto it = m.begin(); it != m.end();) { if (it->second == i) it = m.erase(it); else { if (it->second > i) --it->second; ++it; } } }
    template<class K> VType* ifind(const K& k)
    {
        if constexpr (std::is_convertible_v<K, S1>) { auto f = l1.find(S1(k)); return f != l1.end() ? store[f->second].get() : nullptr; }
        else if constexpr (std::is_convertible_v<K, std::string_view> && std::is_same_v<S1, std::string>) { auto f = l1.find(std::string(k)); return f != l1.end() ? store[f->second].get() : nullptr; }
        else { auto f = l2.find(k); return f != l2.end() ? store[f->second].get() : nullptr; }
    }
    std::vector<std::unique_ptr<VType>> store;
    std::map<S1, size_t> l1;
    std::map<S2, size_t> l2;
};
}  // namespace gmlc::containers
