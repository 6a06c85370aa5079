// Stand-in for score_baselibs futurecpp assertions: every level is active, a failed one aborts. With VERIF_NO_DBG_ASSERT the
// debug level is off, as in the production configuration of the original.
#ifndef VERIF_SHIM_ASSERT_HPP
#define VERIF_SHIM_ASSERT_HPP
#include <cstdio>
#include <cstdlib>
namespace verif_shim
{
[[noreturn]] inline void AssertFailed(const char* file, int line, const char* cond, const char* msg) noexcept
{
    std::fprintf(stderr, "ASSERT-FAILED %s:%d: %s [%s]\n", file, line, cond, msg);
    std::fflush(stderr);
    std::abort();
}
}  // namespace verif_shim
#define VERIF_SHIM_ASSERT_(cond, msg)                                                              \
    do                                                                                             \
    {                                                                                              \
        if (!(cond))                                                                               \
        {                                                                                          \
            ::verif_shim::AssertFailed(__FILE__, __LINE__, #cond, static_cast<const char*>(msg)); \
        }                                                                                          \
    } while (false)
#define SCORE_LANGUAGE_FUTURECPP_ASSERT(...) VERIF_SHIM_ASSERT_((__VA_ARGS__), "")
#define SCORE_LANGUAGE_FUTURECPP_ASSERT_MESSAGE(cond, msg) VERIF_SHIM_ASSERT_(cond, msg)
#ifdef VERIF_NO_DBG_ASSERT
#define SCORE_LANGUAGE_FUTURECPP_ASSERT_DBG(...) static_cast<void>(0)
#define SCORE_LANGUAGE_FUTURECPP_ASSERT_DBG_MESSAGE(cond, msg) static_cast<void>(0)
#else
#define SCORE_LANGUAGE_FUTURECPP_ASSERT_DBG(...) VERIF_SHIM_ASSERT_((__VA_ARGS__), "")
#define SCORE_LANGUAGE_FUTURECPP_ASSERT_DBG_MESSAGE(cond, msg) VERIF_SHIM_ASSERT_(cond, msg)
#endif
#define SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD(...) VERIF_SHIM_ASSERT_((__VA_ARGS__), "")
#define SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD_MESSAGE(cond, msg) VERIF_SHIM_ASSERT_(cond, msg)
#define SCORE_LANGUAGE_FUTURECPP_PRECONDITION(...) VERIF_SHIM_ASSERT_((__VA_ARGS__), "")
#define SCORE_LANGUAGE_FUTURECPP_PRECONDITION_MESSAGE(cond, msg) VERIF_SHIM_ASSERT_(cond, msg)
#define SCORE_LANGUAGE_FUTURECPP_PRECONDITION_DBG(...) VERIF_SHIM_ASSERT_((__VA_ARGS__), "")
#define SCORE_LANGUAGE_FUTURECPP_PRECONDITION_DBG_MESSAGE(cond, msg) VERIF_SHIM_ASSERT_(cond, msg)
#define SCORE_LANGUAGE_FUTURECPP_PRECONDITION_PRD(...) VERIF_SHIM_ASSERT_((__VA_ARGS__), "")
#define SCORE_LANGUAGE_FUTURECPP_PRECONDITION_PRD_MESSAGE(cond, msg) VERIF_SHIM_ASSERT_(cond, msg)
#define SCORE_LANGUAGE_FUTURECPP_UNREACHABLE() ::verif_shim::AssertFailed(__FILE__, __LINE__, "unreachable", "")
#define SCORE_LANGUAGE_FUTURECPP_UNREACHABLE_MESSAGE(msg) \
    ::verif_shim::AssertFailed(__FILE__, __LINE__, "unreachable", static_cast<const char*>(msg))
#define SCORE_LANGUAGE_FUTURECPP_UNREACHABLE_PRD() SCORE_LANGUAGE_FUTURECPP_UNREACHABLE()
#define SCORE_LANGUAGE_FUTURECPP_UNREACHABLE_PRD_MESSAGE(msg) SCORE_LANGUAGE_FUTURECPP_UNREACHABLE_MESSAGE(msg)
#endif
