/* interface-only stand-in for standalone asio (absent submodule): parsed, never run; only what HELICS uses */
#pragma once
#include <array>
#include <chrono>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <iterator>
#include <memory>
#include <string>
#include <string_view>
#include <string_view>
#include <system_error>
#include <vector>
namespace asio {
using error_code = std::error_code;
using system_error = std::system_error;
namespace error {
enum basic_errors { access_denied = 13, address_in_use = 98, connection_aborted = 103, connection_refused = 111, connection_reset = 104, host_not_found = 200, operation_aborted = 125, timed_out = 110, message_size = 90, not_connected = 107, no_buffer_space = 105 };
enum misc_errors { already_open = 1, eof, not_found, fd_set_failure };
inline std::error_code make_error_code(basic_errors e) { return {static_cast<int>(e), std::system_category()}; }
inline std::error_code make_error_code(misc_errors e) { return {static_cast<int>(e), std::generic_category()}; }
}  // namespace error
}  // namespace asio
namespace std {
template<> struct is_error_code_enum<asio::error::basic_errors>: true_type {};
template<> struct is_error_code_enum<asio::error::misc_errors>: true_type {};
}  // namespace std
namespace asio {
class io_context { public: std::size_t run() { return 0; } void stop() {} void restart() {} bool stopped() const { return true; } };
using io_service = io_context;
class mutable_buffer { public: mutable_buffer(void* d, std::size_t n): p(d), s(n) {} void* data() const { return p; } std::size_t size() const { return s; } private: void* p; std::size_t s; };
class const_buffer { public: const_buffer(const void* d, std::size_t n): p(d), s(n) {} const_buffer(const mutable_buffer& m): p(m.data()), s(m.size()) {} const void* data() const { return p; } std::size_t size() const { return s; } private: const void* p; std::size_t s; };
inline mutable_buffer buffer(void* d, std::size_t n) { return {d, n}; }
inline const_buffer buffer(const void* d, std::size_t n) { return {d, n}; }
inline const_buffer buffer(const std::string& s) { return {s.data(), s.size()}; }
inline const_buffer buffer(std::string_view s) { return {s.data(), s.size()}; }
inline const_buffer buffer(const char* s) = delete;
template<class T> mutable_buffer buffer(std::vector<T>& v) { return {v.data(), v.size() * sizeof(T)}; }
template<class T> const_buffer buffer(const std::vector<T>& v) { return {v.data(), v.size() * sizeof(T)}; }
template<class T, std::size_t N> mutable_buffer buffer(std::array<T, N>& v) { return {v.data(), N * sizeof(T)}; }
class socket_base { public: using message_flags = int; enum shutdown_type { shutdown_receive, shutdown_send, shutdown_both }; class reuse_address { public: explicit reuse_address(bool = true) {} }; };
namespace ip {
class address { public: std::string to_string() const; bool is_v4() const; bool is_v6() const; bool is_loopback() const; };
class address_v4: public address { public: static address_v4 any(); static address_v4 loopback(); };
inline std::string host_name() { return "localhost"; }
address make_address(std::string_view s);
address make_address(std::string_view s, error_code& ec);
template<class P> class basic_endpoint { public: basic_endpoint() = default; basic_endpoint(const P&, std::uint16_t); basic_endpoint(const asio::ip::address&, std::uint16_t); asio::ip::address address() const; std::uint16_t port() const; bool operator==(const basic_endpoint&) const; bool operator<(const basic_endpoint&) const; };
template<class P> class resolver_entry { public: basic_endpoint<P> endpoint() const; operator basic_endpoint<P>() const; };
template<class P> class resolver_results { public: using const_iterator = const resolver_entry<P>*; using iterator = const_iterator; const_iterator begin() const; const_iterator end() const; bool empty() const; const resolver_entry<P>& operator*() const; };
template<class P> class basic_resolver {
  public:
    explicit basic_resolver(io_context&);
    class query { public: query(const P&, std::string_view, std::string_view); };
    resolver_results<P> resolve(const P&, std::string_view, std::string_view);
    resolver_results<P> resolve(const P&, std::string_view, std::string_view, error_code&);
    resolver_results<P> resolve(std::string_view, std::string_view);
};
template<class P> class basic_socket: public socket_base {
  public:
    explicit basic_socket(io_context&); basic_socket(io_context&, const P&); basic_socket(io_context&, const basic_endpoint<P>&);
    void open(const P&); void open(const P&, error_code&); bool is_open() const; std::size_t available() const; void close(); void close(error_code&);
    void bind(const basic_endpoint<P>&); void bind(const basic_endpoint<P>&, error_code&); void cancel(); void cancel(error_code&); void shutdown(shutdown_type); void shutdown(shutdown_type, error_code&);
    template<class O> void set_option(const O&); template<class O> void set_option(const O&, error_code&);
    basic_endpoint<P> local_endpoint() const; basic_endpoint<P> remote_endpoint() const;
    template<class B> std::size_t send_to(const B&, const basic_endpoint<P>&); template<class B> std::size_t send_to(const B&, const basic_endpoint<P>&, message_flags, error_code&);
    template<class B> std::size_t receive_from(const B&, basic_endpoint<P>&); template<class B> std::size_t receive_from(const B&, basic_endpoint<P>&, message_flags, error_code&);
    template<class B, class H> void async_receive_from(const B&, basic_endpoint<P>&, H&&) {}
    template<class B> std::size_t send(const B&); template<class B> std::size_t receive(const B&);
};
class udp { public: using endpoint = basic_endpoint<udp>; using socket = basic_socket<udp>; using resolver = basic_resolver<udp>; static udp v4(); static udp v6(); };
class tcp { public: using endpoint = basic_endpoint<tcp>; using socket = basic_socket<tcp>; using resolver = basic_resolver<tcp>; static tcp v4(); static tcp v6(); };
}  // namespace ip
class steady_timer { public: using duration = std::chrono::steady_clock::duration; using time_point = std::chrono::steady_clock::time_point; explicit steady_timer(io_context&); void expires_at(time_point); void expires_after(duration); time_point expiry() const; std::size_t cancel(); template<class H> void async_wait(H&&) {} void wait(); };
}  // namespace asio
