// A stand-in, written from the documented interface, for the header library the code under test includes under this name.
#pragma once
#include <iostream>
#include <sstream>
#include <stdexcept>
#include <string>
#define AS_STRING(...) AS_STRING2(__VA_ARGS__)
#define AS_STRING2(...) #__VA_ARGS__
// Pre- and postconditions are reported by an exception, so that a generated case can observe them.
namespace nda {
  struct precondition_error : std::logic_error { using std::logic_error::logic_error; };
  [[noreturn]] inline void precondition_failed(const char *what, const char *file, int line, std::string const &msg) {
    throw precondition_error(std::string("Precondition ") + what + " violated at " + file + ":" + std::to_string(line) + " " + msg);
  }
} // namespace nda
#define EXPECTS(X) do { if (!(X)) ::nda::precondition_failed(#X, __FILE__, __LINE__, ""); } while (0)
#define EXPECTS_WITH_MESSAGE(X, ...) do { if (!(X)) { std::ostringstream vp_o_; vp_o_ << "" __VA_ARGS__; ::nda::precondition_failed(#X, __FILE__, __LINE__, vp_o_.str()); } } while (0)
#define ASSERT(X) EXPECTS(X)
#define ENSURES(X) EXPECTS(X)
#define ASSERT_WITH_MESSAGE(X, ...) EXPECTS_WITH_MESSAGE(X, __VA_ARGS__)
#define NDA_RUNTIME_ERROR throw ::nda::runtime_error()
#define REQUIRES requires
namespace nda {
  struct runtime_error : std::exception {
    std::string acc;
    template <typename T> runtime_error &operator<<(T const &x) { std::ostringstream o; o << x; acc += o.str(); return *this; }
    const char *what() const noexcept override { return acc.c_str(); }
  };
}
