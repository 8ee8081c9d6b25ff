#pragma once
#include <future>
#include <map>
#include <mutex>
#include <string>
#include <vector>
namespace gmlc::concurrency {
template<class X>
class DelayedObjects {
  public:
    ~DelayedObjects() { for (auto& o : byInt) o.second.set_value(X{}); for (auto& o : byStr) o.second.set_value(X{}); }
    void setDelayedValue(int i, X v) { std::lock_guard<std::mutex> l(m); auto f = byInt.find(i); if (f != byInt.end()) { f->second.set_value(v); usedInt[i] = std::move(f->second); byInt.erase(f); } }
    void setDelayedValue(const std::string& n, X v) { std::lock_guard<std::mutex> l(m); auto f = byStr.find(n); if (f != byStr.end()) { f->second.set_value(v); usedStr[n] = std::move(f->second); byStr.erase(f); } }
    void fulfillAllPromises(X v) { std::lock_guard<std::mutex> l(m); for (auto& o : byInt) { o.second.set_value(v); usedInt[o.first] = std::move(o.second); } for (auto& o : byStr) { o.second.set_value(v); usedStr[o.first] = std::move(o.second); } byInt.clear(); byStr.clear(); }
    std::future<X> getFuture(int i) { std::lock_guard<std::mutex> l(m); std::promise<X> p; auto f = p.get_future(); byInt[i] = std::move(p); return f; }
    std::future<X> getFuture(const std::string& n) { std::lock_guard<std::mutex> l(m); std::promise<X> p; auto f = p.get_future(); byStr[n] = std::move(p); return f; }
    void finishedWithValue(int i) { std::lock_guard<std::mutex> l(m); usedInt.erase(i); }
    void finishedWithValue(const std::string& n) { std::lock_guard<std::mutex> l(m); usedStr.erase(n); }
    bool isRecognized(int i) { std::lock_guard<std::mutex> l(m); return byInt.count(i) > 0 || usedInt.count(i) > 0; }
    bool isRecognized(const std::string& i) { std::lock_guard<std::mutex> l(m); return byStr.count(i) > 0 || usedStr.count(i) > 0; }
    bool isCompleted(int i) { std::lock_guard<std::mutex> l(m); return usedInt.count(i) > 0; }

  private:
    std::map<int, std::promise<X>> byInt, usedInt;
    std::map<std::string, std::promise<X>> byStr, usedStr;
    std::mutex m;
};
}  // namespace gmlc::concurrency
