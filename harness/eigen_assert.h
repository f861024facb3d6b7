// Eigen's assertions on, those of other libraries (NDEBUG) off.
#pragma once
#ifdef __cplusplus
#include <cstdio>
#include <cstdlib>
namespace verif { [[noreturn]] inline void eigenFailed(const char* what, const char* file, int line) { std::fprintf(stderr, "runtime error: Eigen assertion %s at %s:%d\n", what, file, line); std::abort(); } }
#define eigen_assert(x) do { if (!(x)) ::verif::eigenFailed(#x, __FILE__, __LINE__); } while (false)
#endif
