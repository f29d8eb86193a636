// Statements that must compile: arguments of every kind, only the public interface is used.  (If this does not compile
// while api_min.cpp does, C03 reports it: the harness proper then cannot be built either.)
#include "xtr/logger.hpp"
#include <string>
#include <string_view>
struct alignas(32) over { long v; };
template<> struct fmt::formatter<over> { template<typename C> constexpr auto parse(C& c) { return c.begin(); } template<typename C> auto format(const over&, C& c) const { return c.out(); } };
struct unique { unique(); unique(unique&&) noexcept; unique(const unique&) = delete; ~unique(); };
template<> struct fmt::formatter<unique> { template<typename C> constexpr auto parse(C& c) { return c.begin(); } template<typename C> auto format(const unique&, C& c) const { return c.out(); } };
void f(xtr::sink& s, const char* p, std::string str, std::string_view sv, over o)
{
    XTR_LOG(s, "{}", o); XTR_LOG(s, "{}{}", p, o); XTR_LOG(s, "{}{}", o, sv); XTR_TRY_LOG(s, "{}{}", str, o); XTR_LOG_TSC(s, "{}{}", sv, o); XTR_LOG_RTC(s, "{}{}", "lit", o);
    XTR_LOG(s, "{}{}{}", std::move(str), 1, 2.0); XTR_LOGL(info, s, "{}", std::string("x"));
    unique a, b, c; XTR_LOG(s, "{}", std::move(a)); XTR_LOG(s, "{}{}", std::move(b), p); XTR_LOG_TSC(s, "{}{}", sv, std::move(c)); XTR_TRY_LOG(s, "{}", unique());
}
