/* interface-only stand-in: parsed, never linked */
#pragma once
#include "TcpConnection.h"
namespace gmlc::networking {
class TcpServer: public std::enable_shared_from_this<TcpServer> {
  public:
    using pointer = std::shared_ptr<TcpServer>;
    static pointer create(const SocketFactory& sf, asio::io_context& io_context, const std::string& address, uint16_t portNum, bool port_reuse = false, int nominalBufferSize = 10192);
    static pointer create(const SocketFactory& sf, asio::io_context& io_context, const std::string& address, const std::string& port, bool port_reuse = false, int nominalBufferSize = 10192);
    static pointer create(asio::io_context& io_context, const std::string& address, uint16_t portNum, bool port_reuse = false, int nominalBufferSize = 10192);
    static pointer create(asio::io_context& io_context, const std::string& address, const std::string& port, bool port_reuse = false, int nominalBufferSize = 10192);
    ~TcpServer();
    bool start();
    void close();
    void setPortReuse(bool use);
    bool isReady() const;
    explicit operator bool() const;
    bool reConnect(std::chrono::milliseconds timeOut);
    void setDataCall(std::function<size_t(TcpConnection::pointer, const char*, size_t)> dataFunc);
    void setErrorCall(std::function<bool(TcpConnection::pointer, const std::error_code&)> errorFunc);
    void setLoggingCall(std::function<void(int, const std::string&)> logFunc);
    TcpConnection::pointer findSocket(int connectorID) const;
};
}  // namespace gmlc::networking
