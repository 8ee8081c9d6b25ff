/* interface-only stand-in: parsed, never linked */
#pragma once
#include "AsioContextManager.h"
#include <asio/error.hpp>
#include <functional>
#include <memory>
#include <string>
#include <system_error>
#include <vector>
namespace gmlc::networking {
class SocketFactory {
  public:
    SocketFactory() = default;
    explicit SocketFactory(const std::string& encryption_config);
};
class TcpConnection: public std::enable_shared_from_this<TcpConnection> {
  public:
    enum class ConnectionStates { PRESTART = -1, WAITING = 0, OPERATING = 1, HALTED = 3, CLOSED = 4 };
    using pointer = std::shared_ptr<TcpConnection>;
    static pointer create(const SocketFactory& sf, asio::io_context& io_context, size_t bufferSize);
    static pointer create(const SocketFactory& sf, asio::io_context& io_context, const std::string& connection, const std::string& port, size_t bufferSize = 10192);
    static pointer create(asio::io_context& io_context, const std::string& connection, const std::string& port, size_t bufferSize = 10192);
    ~TcpConnection();
    void startReceive();
    void cancel();
    void close();
    void closeNoWait();
    void waitOnClose();
    bool isReceiving() const;
    void setDataCall(std::function<size_t(TcpConnection::pointer, const char*, size_t)> dataFunc);
    void setErrorCall(std::function<bool(TcpConnection::pointer, const std::error_code&)> errorFunc);
    void setLoggingFunction(std::function<void(int, const std::string&)> logFunc);
    size_t send(const void* buffer, size_t dataLength);
    size_t send(const std::string& dataString);
    size_t receive(void* buffer, size_t maxDataLength);
    template<class H> void async_receive(void* buffer, size_t len, H&& h) { (void)buffer; (void)len; (void)h; }
    bool isConnected() const;
    bool waitUntilConnected(std::chrono::milliseconds timeOut);
    int getIdentifier() const;
};
TcpConnection::pointer establishConnection(asio::io_context& io_context, const std::string& address, std::chrono::milliseconds timeOut = std::chrono::milliseconds(0));
TcpConnection::pointer establishConnection(const SocketFactory& sf, asio::io_context& io_context, const std::string& address, std::chrono::milliseconds timeOut = std::chrono::milliseconds(0));
TcpConnection::pointer establishConnection(const SocketFactory& sf, asio::io_context& io_context, const std::string& host, const std::string& port, std::chrono::milliseconds timeOut = std::chrono::milliseconds(0));
}  // namespace gmlc::networking
