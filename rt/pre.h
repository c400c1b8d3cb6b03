// included first when the repository is compiled to bitcode: std::to_string is taken from the model
#pragma once
#include <cstdlib>
#define to_string __libstdcxx_to_string
#include <string>
#undef to_string
namespace std { string to_string(int); string to_string(unsigned); string to_string(long); string to_string(unsigned long); string to_string(long long); string to_string(unsigned long long); string to_string(float); string to_string(double); string to_string(long double);

}
// the message log: its arguments are evaluated, nothing is printed
struct SymNullStream { template <class T> const SymNullStream& operator<<(const T&) const { return *this; } };
#define MVRXCHANGE_LOG(x) (void)(SymNullStream() << x)
#define MVRXCHANGE_ERROR(x) (void)(SymNullStream() << x)
#define MVRXCHANGE_DEBUG(x) (void)0
