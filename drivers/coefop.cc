// The MPO symbol algebra as shipped; the driver only instantiates the templates under contract.
#include <cassert>
#include <iostream>
#include <map>
#include <algorithm>
#include <vector>
#include <string>
// coefficient values: a commutative ring whose content the proofs do not look into
struct VNum { VNum(int); VNum(const VNum &); VNum &operator=(const VNum &); VNum &operator+=(const VNum &); };
// operators (tensors): a module over the coefficients, seen through an arbitrary linear functional
struct VOp { VOp(); VOp(const VOp &); VOp &operator=(const VOp &); VOp &operator+=(const VOp &); };
VOp operator*(const VNum &, const VOp &);
std::string to_string(const VNum &);
#include "qlmps/one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h"
template VNum CoefRepr::Realize<VNum>(const std::vector<VNum> &) const;
template VOp OpRepr::Realize<VNum, VOp>(const std::vector<VNum> &, const std::vector<VOp> &);
template bool ElemInVec<long>(const long &, const std::vector<long> &, long &);
template bool ElemInVec<OpRepr>(const OpRepr &, const std::vector<OpRepr> &, long &);
template std::vector<long> ConcatenateTwoVec<std::vector<long>>(const std::vector<long> &, const std::vector<long> &);
