// Stand-in for Boost.Asio: sockets whose operations are recorded and completed by the harness.
#ifndef BOOST_ASIO_HPP
#define BOOST_ASIO_HPP
#include <boost/system/error_code.hpp>
#include <boost/system/system_error.hpp>
#include <functional>
#include <memory>
#include <string>
#include <cstddef>
#include <cerrno>
#include <arpa/inet.h>
namespace boost { namespace asio {
    namespace error {
        enum basic_errors { message_size = EMSGSIZE, operation_aborted = ECANCELED, connection_reset = ECONNRESET, connection_aborted = ECONNABORTED, bad_descriptor = EBADF, broken_pipe = EPIPE, try_again = EAGAIN, would_block = EWOULDBLOCK, interrupted = EINTR, not_connected = ENOTCONN, timed_out = ETIMEDOUT };
        enum misc_errors { already_open = 1, eof = 4095 };
        inline boost::system::error_code make_error_code(basic_errors e) { return boost::system::error_code(static_cast<int>(e), boost::system::system_category()); }
        inline boost::system::error_code make_error_code(misc_errors e) { return boost::system::error_code(static_cast<int>(e), boost::system::system_category()); }
    }
} namespace system {
    template <> struct is_error_code_enum<boost::asio::error::basic_errors> { static const bool value = true; };
    template <> struct is_error_code_enum<boost::asio::error::misc_errors> { static const bool value = true; };
} namespace asio {
    typedef boost::system::error_code ec_t;
    struct const_buffer { const void* p; std::size_t n; const_buffer() : p(nullptr), n(0) {} const_buffer(const void* q, std::size_t m) : p(q), n(m) {} const void* data() const { return p; } std::size_t size() const { return n; } };
    struct mutable_buffer { void* p; std::size_t n; mutable_buffer(void* q, std::size_t m) : p(q), n(m) {} void* data() const { return p; } std::size_t size() const { return n; } operator const_buffer() const { return const_buffer(p, n); } };
    typedef mutable_buffer mutable_buffers_1; typedef const_buffer const_buffers_1;
    inline mutable_buffer buffer(void* p, std::size_t n) { return mutable_buffer(p, n); }
    inline const_buffer buffer(const void* p, std::size_t n) { return const_buffer(p, n); }
    inline mutable_buffer buffer(mutable_buffer b) { return b; }
    inline const_buffer buffer(const_buffer b) { return b; }
    typedef std::function<void(ec_t, std::size_t)> io_handler; typedef std::function<void(ec_t)> accept_handler;
    // everything that is under way, one of a kind per socket
    struct io_state {
        bool open = true, reading = false, writing = false, accepting = false; unsigned reads = 0, writes = 0, violations = 0, closed = 0;
        mutable_buffer rbuf = mutable_buffer(nullptr, 0); io_handler rh; const_buffer wbuf; io_handler wh; accept_handler ah; void* peer = nullptr; int from = 0; int* fromp = nullptr; int to = 0;
    };
    inline io_state*& last_io() { static io_state* s = nullptr; return s; }
    class io_context {
    public:
        io_context() {} explicit io_context(int) {}
        template <class F> void post(F f) { posted.push(f); }
        template <class F> void dispatch(F f) { f(); }
        bool stopped() const { return stop_; } void stop() { stop_ = true; } std::size_t run() { return 0; } std::size_t poll() { return 0; } void reset() { stop_ = false; }
        struct queue { std::function<void()> f[8]; unsigned n = 0; template <class G> void push(G g) { if (n < 8) f[n++] = g; } } posted;
    private:
        bool stop_ = false;
    };
    typedef io_context io_service;
    struct transfer_all_t {}; inline transfer_all_t transfer_all() { return transfer_all_t(); }
    struct reuse_address_t { explicit reuse_address_t(bool) {} };
    struct no_delay_t { explicit no_delay_t(bool) {} };
    template <class P> struct basic_endpoint { typedef P protocol_type; int id = 0; basic_endpoint() {} template <class A, class B> basic_endpoint(A, B) {} explicit basic_endpoint(const std::string&) {} P protocol() const { return P(); } };
    struct socket_base { enum shutdown_type { shutdown_receive, shutdown_send, shutdown_both }; typedef reuse_address_t reuse_address; };
    template <class P> struct basic_socket : socket_base {
        typedef P protocol_type; typedef basic_endpoint<P> endpoint_type; io_service& ios; io_state st;
        explicit basic_socket(io_service& s) : ios(s) { last_io() = &st; } ~basic_socket() { if (last_io() == &st) last_io() = nullptr; }
        basic_socket(const basic_socket&) = delete;
        io_service& get_io_service() { return ios; } io_service& get_executor() { return ios; }
        bool is_open() const { return st.open; }
        void shutdown(shutdown_type, ec_t& e) { e = ec_t(); } void close(ec_t& e) { e = ec_t(); st.open = false; ++st.closed; } void close() { st.open = false; ++st.closed; } void cancel(ec_t& e) { e = ec_t(); }
        void open(P) { st.open = true; } void bind(const endpoint_type&) {} template <class O> void set_option(const O&) {} template <class O> void set_option(const O&, ec_t& e) { e = ec_t(); }
        std::size_t available(ec_t& e) const { e = ec_t(); return 0; }
        template <class H> void async_read_some(mutable_buffer b, H h) { if (st.reading) ++st.violations; st.reading = true; ++st.reads; st.rbuf = b; st.rh = io_handler(h); }
        template <class H> void async_receive(mutable_buffer b, H h) { async_read_some(b, h); }
        template <class H> void async_write_some(const_buffer b, H h) { if (st.writing) ++st.violations; st.writing = true; ++st.writes; st.wbuf = b; st.wh = io_handler(h); }
        template <class H> void async_receive_from(mutable_buffer b, endpoint_type& from, H h) { async_read_some(b, h); st.fromp = &from.id; }
        template <class H> void async_send_to(const_buffer b, const endpoint_type& to, H h) { async_write_some(b, h); st.to = to.id; }
    };
    template <class P> struct basic_acceptor {
        typedef reuse_address_t reuse_address; io_service& ios; bool open_ = false; explicit basic_acceptor(io_service& s) : ios(s) {}
        void open(P) { open_ = true; } void bind(const basic_endpoint<P>&) {} void listen() {} void listen(int) {} void close(ec_t&) { open_ = false; } void close() { open_ = false; } bool is_open() const { return open_; }
        template <class O> void set_option(const O&) {} template <class O> void set_option(const O&, ec_t& e) { e = ec_t(); }
        template <class H> void async_accept(basic_socket<P>& s, H h) { s.st.accepting = true; s.st.ah = accept_handler(h); last_io() = &s.st; }
    };
    template <class S, class H> void async_write(S& s, const_buffer b, transfer_all_t, H h) { s.async_write_some(b, h); }
    template <class S, class H> void async_write(S& s, const_buffer b, H h) { s.async_write_some(b, h); }
    namespace ip {
        struct address { static address from_string(const std::string&) { return address(); } };
        struct tcp { typedef basic_socket<tcp> socket; typedef basic_acceptor<tcp> acceptor; typedef basic_endpoint<tcp> endpoint; typedef no_delay_t no_delay; static tcp v4() { return tcp(); } static tcp v6() { return tcp(); } };
        struct udp { typedef basic_socket<udp> socket; typedef basic_endpoint<udp> endpoint; static udp v4() { return udp(); } static udp v6() { return udp(); } };
    }
    namespace local { struct stream_protocol { typedef basic_socket<stream_protocol> socket; typedef basic_acceptor<stream_protocol> acceptor; typedef basic_endpoint<stream_protocol> endpoint; }; }
}}
#endif
