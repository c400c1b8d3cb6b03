// the mDNS log of the repository: its arguments are evaluated, nothing is printed
#pragma once
#include "pre.h"
#if __has_include("mdns_cpp/macros.hpp")
#include "mdns_cpp/macros.hpp"
#undef MDNS_LOG
#define MDNS_LOG SymNullStream()
#endif
