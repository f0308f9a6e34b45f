// Replaces libstdc++'s <bits/atomic_wait.h>: std::atomic<T>::wait/notify, latch, barrier and
// semaphores block in the model checker instead of spinning / using a futex.
#ifndef _GLIBCXX_ATOMIC_WAIT_H
#define _GLIBCXX_ATOMIC_WAIT_H 1
#pragma GCC system_header
#include <bits/c++config.h>
#include <cstdint>
#include <bits/functional_hash.h>
#include <bits/gthr.h>
#include <ext/numeric_traits.h>
#include <cerrno>
#include <climits>
#include <unistd.h>
#include <syscall.h>
#include <bits/functexcept.h>
#include <bits/std_mutex.h>

#define __cpp_lib_atomic_wait 201907L

extern "C" {
void mcrt_block(const void* addr);
void mcrt_wait_enter(int d);
int mcrt_peek(const int* addr);
int mcrt_block_timed(const void* addr);  // 1 = timed out
void mcrt_notify(const void* addr, int all);
unsigned long mcrt_wait_version(const void* addr);
void mcrt_block_if_version(const void* addr, unsigned long ver);
}

namespace std _GLIBCXX_VISIBILITY(default)
{
_GLIBCXX_BEGIN_NAMESPACE_VERSION
  namespace __detail
  {
#define _GLIBCXX_HAVE_PLATFORM_WAIT 1
    using __platform_wait_t = int;
    inline constexpr size_t __platform_wait_alignment = 4;

    inline void __thread_yield() noexcept { __gthread_yield(); }
    inline void __thread_relax() noexcept { __gthread_yield(); }

    inline constexpr auto __atomic_spin_count_relax = 12;
    inline constexpr auto __atomic_spin_count = 16;

    struct __default_spin_policy { bool operator()() const noexcept { return false; } };

    template<typename _Pred, typename _Spin = __default_spin_policy>
      bool __atomic_spin(_Pred& __pred, _Spin = _Spin{}) noexcept
      {
	for (int __i = 0; __i < 3; ++__i)
	  {
	    if (__pred())
	      return true;
	    __thread_yield();
	  }
	return __pred();
      }

    struct __mc_waiting { __mc_waiting() { ::mcrt_wait_enter(1); } ~__mc_waiting() { ::mcrt_wait_enter(-1); } };

    template<typename _Tp>
      bool __atomic_compare(const _Tp& __a, const _Tp& __b)
      { return __builtin_memcmp(&__a, &__b, sizeof(_Tp)) == 0; }
  }

  template<typename _Tp>
    inline constexpr bool __platform_wait_uses_type
      = is_scalar_v<_Tp>
	&& ((sizeof(_Tp) == sizeof(__detail::__platform_wait_t))
	&& (alignof(_Tp*) >= __detail::__platform_wait_alignment));

  template<typename _Tp, typename _ValFn>
    void
    __atomic_wait_address_v(const _Tp* __addr, _Tp __old, _ValFn __vfn) noexcept
    {
      __detail::__mc_waiting __mcw;
      for (;;)
	{
	  _Tp __v = __vfn();
	  if (!__detail::__atomic_compare(__old, __v))
	    return;
	  // no scheduling point between the load and the block: as atomic as a futex
	  ::mcrt_block(__addr);
	}
    }

  template<typename _Tp, typename _Pred>
    void
    __atomic_wait_address(const _Tp* __addr, _Pred __pred) noexcept
    {
      __detail::__mc_waiting __mcw;
      for (;;)
	{
	  unsigned long __ver = ::mcrt_wait_version(__addr);
	  if (__pred())
	    return;
	  ::mcrt_block_if_version(__addr, __ver);
	}
    }

  template<typename _Pred>
    void
    __atomic_wait_address_bare(const __detail::__platform_wait_t* __addr, _Pred __pred) noexcept
    {
      __detail::__mc_waiting __mcw;
      for (;;)
	{
	  __detail::__platform_wait_t __val;
	  __atomic_load(__addr, &__val, __ATOMIC_RELAXED);
	  if (__pred())
	    return;
	  __detail::__platform_wait_t __now = ::mcrt_peek(__addr);
	  if (__now == __val)
	    ::mcrt_block(__addr);
	}
    }

  template<typename _Tp>
    void
    __atomic_notify_address(const _Tp* __addr, bool __all) noexcept
    { ::mcrt_notify(__addr, __all); }

  inline void
  __atomic_notify_address_bare(const __detail::__platform_wait_t* __addr, bool __all) noexcept
  { ::mcrt_notify(__addr, __all); }
_GLIBCXX_END_NAMESPACE_VERSION
} // namespace std
#endif
