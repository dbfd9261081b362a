// The assertions of the library are checked, but as in a release build they order nothing:
// what they read is neither a synchronisation nor a race.
#include <features.h>
#undef assert
#ifdef NDEBUG
#define assert(e) (static_cast<void>(0))
#else
#ifndef SIM_ASSERT_DECLARED
#define SIM_ASSERT_DECLARED
extern "C" {
extern void __assert_fail(const char*, const char*, unsigned int, const char*) __attribute__((__noreturn__));
void sim_assert_begin();
void sim_assert_end();
}
#endif
#define assert(...)                                                                                   \
  (__builtin_is_constant_evaluated()                                                                  \
       ? ((__VA_ARGS__) ? (void)0 : __assert_fail(#__VA_ARGS__, __FILE__, __LINE__, __extension__ __PRETTY_FUNCTION__)) \
       : (sim_assert_begin(),                                                                         \
          (__VA_ARGS__) ? sim_assert_end()                                                            \
                        : (sim_assert_end(), __assert_fail(#__VA_ARGS__, __FILE__, __LINE__, __extension__ __PRETTY_FUNCTION__))))
#endif
#ifndef static_assert
#if !defined(__cplusplus)
#define static_assert _Static_assert
#endif
#endif
