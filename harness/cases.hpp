#ifndef VH_CASES_HPP
#define VH_CASES_HPP
#include "common.hpp"
namespace vh {
typedef void (*CaseFn)(Ctx&);
#define VH_CASE(x) void case##x(Ctx&);
VH_CASE(C01) VH_CASE(C02) VH_CASE(C03) VH_CASE(C04) VH_CASE(C05) VH_CASE(C06)
VH_CASE(C07) VH_CASE(C08) VH_CASE(C09) VH_CASE(C10) VH_CASE(C11) VH_CASE(C12)
VH_CASE(C13) VH_CASE(C14) VH_CASE(C15) VH_CASE(C16) VH_CASE(C17) VH_CASE(C18)
}
#endif
