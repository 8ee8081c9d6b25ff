#pragma once
#ifdef ENABLE_TRIPWIRE
#include "TripWire.hpp"
#endif
#include <algorithm>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <vector>
namespace gmlc::concurrency {
template<class X, class Y = int>
class SearchableObjectHolder {
  public:
    bool addObject(const std::string& n, std::shared_ptr<X> o) { std::lock_guard<std::mutex> l(m); return objs.emplace(n, std::move(o)).second; }
    bool addObject(const std::string& n, std::shared_ptr<X> o, Y t) { std::lock_guard<std::mutex> l(m); bool r = objs.emplace(n, std::move(o)).second; if (r) types[n].push_back(t); return r; }
    bool addType(const std::string& n, Y t) { std::lock_guard<std::mutex> l(m); if (objs.count(n) == 0) return false; types[n].push_back(t); return true; }
    bool empty() { std::lock_guard<std::mutex> l(m); return objs.empty(); }
    std::vector<std::shared_ptr<X>> getObjects() { std::lock_guard<std::mutex> l(m); std::vector<std::shared_ptr<X>> r; for (auto& o : objs) r.push_back(o.second); return r; }
    bool removeObject(const std::string& n) { std::lock_guard<std::mutex> l(m); types.erase(n); return objs.erase(n) > 0; }
    bool removeObject(std::function<bool(const std::shared_ptr<X>&)> op) { std::lock_guard<std::mutex> l(m); for (auto it = objs.begin(); it != objs.end(); ++it) if (op(it->second)) { types.erase(it->first); objs.erase(it); return true; } return false; }
    bool copyObject(const std::string& a, const std::string& b) { std::lock_guard<std::mutex> l(m); auto f = objs.find(a); if (f == objs.end()) return false; auto p = f->second; bool r = objs.emplace(b, p).second; if (r) { auto t = types.find(a); if (t != types.end()) { auto c = t->second; types[b] = c; } } return r; }
    std::shared_ptr<X> findObject(const std::string& n) { std::lock_guard<std::mutex> l(m); auto f = objs.find(n); return f == objs.end() ? nullptr : f->second; }
    std::shared_ptr<X> findObject(std::function<bool(const std::shared_ptr<X>&)> op) { std::lock_guard<std::mutex> l(m); for (auto& o : objs) if (op(o.second)) return o.second; return nullptr; }
    std::shared_ptr<X> findObject(std::function<bool(const std::shared_ptr<X>&)> op, Y t) { std::lock_guard<std::mutex> l(m); for (auto& o : objs) { auto f = types.find(o.first); if (f != types.end() && std::find(f->second.begin(), f->second.end(), t) != f->second.end() && op(o.second)) return o.second; } return nullptr; }
    bool checkObjectType(const std::string& n, Y t) { std::lock_guard<std::mutex> l(m); auto f = types.find(n); return f != types.end() && std::find(f->second.begin(), f->second.end(), t) != f->second.end(); }

  private:
    std::mutex m;
    std::map<std::string, std::shared_ptr<X>> objs;
    std::map<std::string, std::vector<Y>> types;
};
}  // namespace gmlc::concurrency
