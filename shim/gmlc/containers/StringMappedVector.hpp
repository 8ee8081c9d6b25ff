#pragma once
#include "MappedVector.hpp"
namespace gmlc::containers {
template<class VType, reference_stability STABILITY = reference_stability::unstable>
class StringMappedVector {
  public:
    using Store = std::conditional_t<STABILITY == reference_stability::stable, std::deque<VType>, std::vector<VType>>;
    template<typename... Us> std::optional<size_t> insert(std::string_view s, Us&&... d)
    {
        if (lookup.find(s) != lookup.end()) return std::nullopt;
        auto index = store.size();
        store.emplace_back(std::forward<Us>(d)...);
        lookup.emplace(std::string(s), index);
        return index;
    }
    template<typename... Us> std::optional<size_t> insert(std::nullptr_t, Us&&... d) { store.emplace_back(std::forward<Us>(d)...); return store.size() - 1; }
    auto find(std::string_view s) { auto f = lookup.find(s); return f != lookup.end() ? store.begin() + static_cast<std::ptrdiff_t>(f->second) : store.end(); }
    auto find(std::string_view s) const { auto f = lookup.find(s); return f != lookup.end() ? store.begin() + static_cast<std::ptrdiff_t>(f->second) : store.end(); }
    VType& operator[](size_t i) { return store[i]; }
    const VType& operator[](size_t i) const { return store[i]; }
    VType& back() { return store.back(); }
    auto begin() { return store.begin(); }
    auto end() { return store.end(); }
    auto begin() const { return store.cbegin(); }
    auto end() const { return store.cend(); }
    template<class UnaryFunction> void apply(UnaryFunction F) { std::for_each(store.begin(), store.end(), F); }
    template<class UnaryFunction> void modify(UnaryFunction F) { std::for_each(store.begin(), store.end(), F); }
    size_t size() const { return store.size(); }
    bool empty() const { return store.empty(); }
    void clear() { store.clear(); lookup.clear(); }

  private:
    Store store;
    std::map<std::string, size_t, std::less<>> lookup;
};
}  // namespace gmlc::containers
