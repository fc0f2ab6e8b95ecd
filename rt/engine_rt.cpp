// C/C++ library pieces executed symbolically (compiled to IR together with every harness).
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <climits>
#include <exception>
#include <functional>
#include <new>
#include <stdexcept>
#include <string>
#include <typeinfo>


// ---- std exceptions (vtables, typeinfos and the reference counted message)
namespace std {
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
type_info::~type_info() {}

// __cow_string stand-in: owns a plain C string
static char* dupmsg(const char* s) { size_t n = strlen(s) + 1; char* p = (char*)operator new(n); memcpy(p, s, n); return p; }
struct cowrep { char* p; };
__cow_string::__cow_string() { reinterpret_cast<cowrep*>(this)->p = nullptr; }
__cow_string::__cow_string(const std::string& s) { reinterpret_cast<cowrep*>(this)->p = dupmsg(s.c_str()); }
__cow_string::__cow_string(const char* s, size_t) { reinterpret_cast<cowrep*>(this)->p = dupmsg(s); }
__cow_string::__cow_string(const __cow_string& o) noexcept { reinterpret_cast<cowrep*>(this)->p = dupmsg(reinterpret_cast<const cowrep&>(o).p); }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { reinterpret_cast<cowrep*>(this)->p = dupmsg(reinterpret_cast<const cowrep&>(o).p); return *this; }
__cow_string::~__cow_string() { operator delete(reinterpret_cast<cowrep*>(this)->p); }

#define MSG(m) reinterpret_cast<const cowrep&>(m).p
logic_error::logic_error(const string& s) : _M_msg(s) {}
logic_error::logic_error(const char* s) : _M_msg(s, 0) {}
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error::logic_error(logic_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return MSG(_M_msg); }
runtime_error::runtime_error(const string& s) : _M_msg(s) {}
runtime_error::runtime_error(const char* s) : _M_msg(s, 0) {}
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error::runtime_error(runtime_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return MSG(_M_msg); }
#define EXC(T, B) T::T(const string& s) : B(s) {} T::T(const char* s) : B(s) {} T::~T() noexcept {}
EXC(domain_error, logic_error) EXC(invalid_argument, logic_error) EXC(length_error, logic_error) EXC(out_of_range, logic_error)
EXC(range_error, runtime_error) EXC(overflow_error, runtime_error) EXC(underflow_error, runtime_error)

void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
}
template class std::basic_string<char>;
