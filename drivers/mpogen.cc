// The MPO generator as shipped; the driver only instantiates it.
#include <cassert>
#include "qlten/qlten.h"
struct VReal { bool operator<(const double) const; };
struct VNum { VNum(int); VNum(const VNum &); VNum &operator=(const VNum &); VNum &operator+=(const VNum &); VNum &operator*=(const VNum &); bool operator==(const VNum &) const; bool operator!=(const double) const; VNum operator-() const; };
std::ostream &operator<<(std::ostream &, const VNum &);
VReal Real(const VNum &);
struct VQN { VQN(); VQN(const VQN &); VQN operator-(const VQN &) const; bool operator==(const VQN &) const; };
#include "qlmps/one_dim_tn/mpo/mpogen/mpogen.h"
template class qlmps::MPOGenerator<VNum, VQN>;
