// Tensor vectors and matrix product states as shipped; the driver only instantiates them.
#include <cassert>
#include "qlten/qlten.h"
struct VNum { VNum(int); VNum(const VNum &); VNum &operator=(const VNum &); VNum &operator+=(const VNum &); VNum &operator*=(const VNum &); bool operator==(const VNum &) const; };
struct VQN { VQN(); VQN(const VQN &); VQN operator-(const VQN &) const; bool operator==(const VQN &) const; };
#include "qlmps/one_dim_tn/mps/finite_mps/finite_mps.h"
template class qlmps::TenVec<qlten::QLTensor<VNum, VQN>>;
template class qlmps::MPS<VNum, VQN>;
template class qlmps::FiniteMPS<VNum, VQN>;
