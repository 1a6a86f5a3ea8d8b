// Opaque scalar types and operators used to instantiate the real templates.
// Nothing here is defined: the verifier gives every declared function below the
// meaning of an uninterpreted function, so what is proved holds for every
// choice of scalar types, conversions and operators.
#pragma once
#include <graphblas/graphblas.hpp>
namespace gv {
struct Opaque {};
#define GV_SORT(N) struct N : Opaque { N(); template<class T, class = std::enable_if_t<std::is_base_of_v<Opaque, T>>> N(T const&); explicit operator bool() const; };
GV_SORT(SA) GV_SORT(SB) GV_SORT(SC) GV_SORT(SM) GV_SORT(ST) GV_SORT(SV)
// ST: operator result domain, SV: bound scalar; the accumulator result domain is the output domain SC
struct SR  { using result_type = ST; ST zero() const; ST add(ST, ST) const; ST mult(SA, SB) const; };
struct SRv { using result_type = ST; ST zero() const; ST add(ST, ST) const; ST mult(SB, SA) const; }; // vxm: vector operand first
struct ACC { using result_type = SC; SC operator()(SC, ST) const; };   // accumulate an operator result
struct ACA { using result_type = SC; SC operator()(SC, SA) const; };   // accumulate an input element
struct ACV { using result_type = SC; SC operator()(SC, SV) const; };   // accumulate a scalar
struct BOP { ST operator()(SA, SB) const; };
struct UOP { ST operator()(SA) const; };
struct B1  { ST operator()(SV, SA) const; };
struct B2  { ST operator()(SA, SV) const; };
struct RED { ST operator()(ST, ST) const; };
struct MON { using result_type = ST; ST identity() const; ST operator()(ST, ST) const; };
struct DUP { SA operator()(SA, SA) const; };
struct DUB { SA operator()(SA, SB) const; };
}
