// Parallel algorithms of the standard library on plain threads instead of TBB, whose
// synchronisation ThreadSanitizer cannot see. Included before everything else, with
// _GLIBCXX_USE_TBB_PAR_BACKEND=0.
#pragma once
#include <exception>
#include <thread>
#include <vector>
#define __parallel_for __parallel_for_in_one_thread
#include <pstl/parallel_backend_serial.h>
#undef __parallel_for
namespace __pstl {
namespace __serial_backend {
template <class _ExecutionPolicy, class _Index, class _Fp>
void __parallel_for(_ExecutionPolicy&&, _Index first, _Index last, _Fp f) {
  const long n = long(last - first), k = n < 4 ? n : 4;
  std::vector<std::thread> t;
  for (long i = 0; i < k; ++i) {
    t.emplace_back([=] {
      try {f(first + n * i / k, first + n * (i + 1) / k);} catch (...) {std::terminate();}
    });
  }
  for (auto& x : t) {x.join();}
}
}  // namespace __serial_backend
}  // namespace __pstl
