#pragma once
#include "MappedVector.hpp"
namespace gmlc::containers {
template<class VType, class S2, reference_stability STABILITY = reference_stability::unstable>
class DualStringMappedVector {
  public:
    using Store = std::conditional_t<STABILITY == reference_stability::stable, std::deque<VType>, std::vector<VType>>;
    template<typename... Us> std::optional<size_t> insert(std::string_view s1, const S2& s2, Us&&... d)
    {
        if (l1.find(s1) != l1.end() || l2.find(s2) != l2.end()) return std::nullopt;
        auto index = store.size();
        store.emplace_back(std::forward<Us>(d)...);
        l1.emplace(std::string(s1), index); l2.emplace(s2, index);
        return index;
    }
    template<typename... Us> std::optional<size_t> insert(std::string_view s1, std::nullptr_t, Us&&... d)
    {
        if (l1.find(s1) != l1.end()) return std::nullopt;
        auto index = store.size();
        store.emplace_back(std::forward<Us>(d)...);
        l1.emplace(std::string(s1), index);
        return index;
    }
    template<typename... Us> std::optional<size_t> insert(std::nullptr_t, const S2& s2, Us&&... d)
    {
        if (l2.find(s2) != l2.end()) return std::nullopt;
        auto index = store.size();
        store.emplace_back(std::forward<Us>(d)...);
        l2.emplace(s2, index);
        return index;
    }
    template<typename... Us> std::optional<size_t> insert_or_assign(std::string_view s1, const S2& s2, Us&&... d)
    {
        auto f = l1.find(s1);
        if (f != l1.end()) { store[f->second] = VType(std::forward<Us>(d)...); l2.emplace(s2, f->second); return f->second; }
        return insert(s1, s2, std::forward<Us>(d)...);
    }
    bool addSearchTerm(std::string_view nk, const S2& k) { auto f = l2.find(k); if (f == l2.end()) return false; return l1.emplace(std::string(nk), f->second).second; }
    bool addSearchTerm(const S2& nk, std::string_view k) { auto f = l1.find(k); if (f == l1.end()) return false; return l2.emplace(nk, f->second).second; }
    bool addSearchTermForIndex(std::string_view nk, size_t i) { return i < store.size() && l1.emplace(std::string(nk), i).second; }
    bool addSearchTermForIndex(const S2& nk, size_t i) { return i < store.size() && l2.emplace(nk, i).second; }
    auto find(std::string_view s) { auto f = l1.find(s); return f != l1.end() ? store.begin() + static_cast<std::ptrdiff_t>(f->second) : store.end(); }
    auto find(std::string_view s) const { auto f = l1.find(s); return f != l1.end() ? store.begin() + static_cast<std::ptrdiff_t>(f->second) : store.end(); }
    auto find(const S2& s) { auto f = l2.find(s); return f != l2.end() ? store.begin() + static_cast<std::ptrdiff_t>(f->second) : store.end(); }
    auto find(const S2& s) const { auto f = l2.find(s); return f != l2.end() ? store.begin() + static_cast<std::ptrdiff_t>(f->second) : store.end(); }
    VType& operator[](size_t i) { return store[i]; }
    const VType& operator[](size_t i) const { return store[i]; }
    VType& back() { return store.back(); }
    auto begin() { return store.begin(); }
    auto end() { return store.end(); }
    auto begin() const { return store.cbegin(); }
    auto end() const { return store.cend(); }
    size_t size() const { return store.size(); }
    bool empty() const { return store.empty(); }
    void clear() { store.clear(); l1.clear(); l2.clear(); }
    template<class UnaryFunction> void apply(UnaryFunction F) { std::for_each(store.begin(), store.end(), F); }
    template<class UnaryFunction> void modify(UnaryFunction F) { std::for_each(store.begin(), store.end(), F); }
    void removeIndex(size_t i)
    {
        if (i >= store.size()) return;
        store.erase(store.begin() + static_cast<std::ptrdiff_t>(i));
        fix(l1, i); fix(l2, i);
    }
    void remove(std::string_view s) { auto f = l1.find(s); if (f != l1.end()) removeIndex(f->second); }
    void remove(const S2& s) { auto f = l2.find(s); if (f != l2.end()) removeIndex(f->second); }

  private:
    template<class MM> static void fix(MM& m, size_t i) { for (auto it = m.begin(); it != m.end();) { if (it->second == i) it = m.erase(it); else { if (it->second > i) --it->second; ++it; } } }
    Store store;
    std::map<std::string, size_t, std::less<>> l1;
    std::map<S2, size_t> l2;
};
}  // namespace gmlc::containers
