#pragma once
#include "MappedVector.hpp"
namespace gmlc::containers {
template<class VType, class searchType>
class MappedPointerVector {
  public:
    template<typename... Us> std::optional<size_t> insert(const searchType& s, Us&&... d)
    {
        if (lookup.find(s) != lookup.end()) return std::nullopt;
        auto index = store.size();
        store.push_back(std::make_unique<VType>(std::forward<Us>(d)...));
        lookup.emplace(s, index);
        return index;
    }
    std::optional<size_t> insert(const searchType& s, std::unique_ptr<VType>&& p)
    {
        if (lookup.find(s) != lookup.end()) return std::nullopt;
        auto index = store.size();
        store.push_back(std::move(p));
        lookup.emplace(s, index);
        return index;
    }
    VType* find(const searchType& s) const { auto f = lookup.find(s); return f != lookup.end() ? store[f->second].get() : nullptr; }
    VType* operator[](size_t i) const { return i < store.size() ? store[i].get() : nullptr; }
    VType* back() { return store.back().get(); }
    void removeIndex(size_t i)
    {
        if (i >= store.size()) return;
        store.erase(store.begin() + static_cast<std::ptrdiff_t>(i));
        for (auto it = lookup.begin(); it != lookup.end();) { if (it->second == i) it = lookup.erase(it); else { if (it->second > i) --it->second; ++it; } }
    }
    void remove(const searchType& s) { auto f = lookup.find(s); if (f != lookup.end()) removeIndex(f->second); }
    auto begin() { return store.begin(); }
    auto end() { return store.end(); }
    auto begin() const { return store.cbegin(); }
    auto end() const { return store.cend(); }
    size_t size() const { return store.size(); }
    bool empty() const { return store.empty(); }
    void clear() { store.clear(); lookup.clear(); }

  private:
    std::vector<std::unique_ptr<VType>> store;
    std::map<searchType, size_t> lookup;
};
}  // namespace gmlc::containers
