// Replaces libstdc++'s <bits/atomic_timed_wait.h>: a timed wait may time out at any moment
// (one deviation) and otherwise blocks in the model checker.
#ifndef _GLIBCXX_ATOMIC_TIMED_WAIT_H
#define _GLIBCXX_ATOMIC_TIMED_WAIT_H 1
#pragma GCC system_header
#include <bits/atomic_wait.h>
#include <bits/functional_hash.h>
#include <bits/this_thread_sleep.h>
#include <bits/chrono.h>
#include <sys/time.h>

namespace std _GLIBCXX_VISIBILITY(default)
{
_GLIBCXX_BEGIN_NAMESPACE_VERSION
  namespace __detail { using __wait_clock_t = chrono::steady_clock; }

  template<typename _Tp, typename _ValFn, typename _Time>
    bool
    __atomic_wait_address_until_v(const _Tp* __addr, _Tp&& __old, _ValFn&& __vfn, const _Time&) noexcept
    {
      __detail::__mc_waiting __mcw;
      for (;;)
	{
	  auto __v = __vfn();
	  if (!__detail::__atomic_compare(__old, __v))
	    return true;
	  if (::mcrt_block_timed(__addr))
	    return false;
	}
    }
  template<typename _Tp, typename _Pred, typename _Time>
    bool
    __atomic_wait_address_until(const _Tp* __addr, _Pred __pred, const _Time&) noexcept
    {
      __detail::__mc_waiting __mcw;
      for (;;)
	{
	  if (__pred())
	    return true;
	  if (::mcrt_block_timed(__addr))
	    return false;
	}
    }
  template<typename _Pred, typename _Time>
    bool
    __atomic_wait_address_until_bare(const __detail::__platform_wait_t* __addr, _Pred __pred, const _Time& __t) noexcept
    { return std::__atomic_wait_address_until(__addr, __pred, __t); }
  template<typename _Tp, typename _ValFn, typename _Dur>
    bool
    __atomic_wait_address_for_v(const _Tp* __addr, _Tp&& __old, _ValFn&& __vfn, const _Dur& __t) noexcept
    { return std::__atomic_wait_address_until_v(__addr, std::move(__old), __vfn, __t); }
  template<typename _Tp, typename _Pred, typename _Dur>
    bool
    __atomic_wait_address_for(const _Tp* __addr, _Pred __pred, const _Dur& __t) noexcept
    { return std::__atomic_wait_address_until(__addr, __pred, __t); }
  template<typename _Pred, typename _Dur>
    bool
    __atomic_wait_address_for_bare(const __detail::__platform_wait_t* __addr, _Pred __pred, const _Dur& __t) noexcept
    { return std::__atomic_wait_address_until(__addr, __pred, __t); }
_GLIBCXX_END_NAMESPACE_VERSION
} // namespace std
#endif
