#pragma once
#include <asio/io_context.hpp>
#include <asio/ip/tcp.hpp>
#include <memory>
#include <string>
namespace gmlc::networking {
class AsioContextManager: public std::enable_shared_from_this<AsioContextManager> {
  public:
    class LoopHandleImpl { public: explicit LoopHandleImpl(std::shared_ptr<AsioContextManager>) {} };
    using LoopHandle = std::unique_ptr<LoopHandleImpl>;
    static std::shared_ptr<AsioContextManager> getContextPointer(const std::string& contextName = std::string{})
    {
        (void)contextName;
        static auto p = std::make_shared<AsioContextManager>();
        return p;
    }
    static asio::io_context& getContext(const std::string& contextName = std::string{}) { return getContextPointer(contextName)->getBaseContext(); }
    static asio::io_context& getExistingContext(const std::string& contextName = std::string{}) { return getContext(contextName); }
    static void closeContext(const std::string& = std::string{}) {}
    static void setContextToLeakOnDelete(const std::string& = std::string{}) {}
    asio::io_context& getBaseContext() const { return *ictx; }
    LoopHandle startContextLoop() { return nullptr; }
    bool isRunning() const { return false; }

  private:
    std::unique_ptr<asio::io_context> ictx{std::make_unique<asio::io_context>()};
};
}  // namespace gmlc::networking
