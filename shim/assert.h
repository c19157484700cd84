// The system's assert, save that a harness may ask for an exception instead of the end of
// the process while it lets a gadget compute with values that do not belong together.
#include_next <assert.h>
#ifdef __cplusplus
#ifndef VSHIM_ASSERT_H
#define VSHIM_ASSERT_H
#include <stdexcept>
namespace vshim {
    inline thread_local bool asserts_throw = false;
    inline void assert_failed(const char *what, const char *file, unsigned line, const char *function) {
        if (asserts_throw) throw std::logic_error(what);
        __assert_fail(what, file, line, function);
    }
}
#endif
#ifndef NDEBUG
#undef assert
#define assert(...) ((__VA_ARGS__) ? void(0) : ::vshim::assert_failed(#__VA_ARGS__, __FILE__, __LINE__, __func__))
#endif
#endif
