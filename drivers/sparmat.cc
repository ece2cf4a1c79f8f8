// Instantiates the template under contract with an opaque element type (parametric proof).
#include <cassert>
#include <iostream>
#include <vector>
#include <map>
#include <algorithm>
struct VElem { VElem(); VElem(const VElem &); VElem &operator=(const VElem &); bool operator==(const VElem &) const; bool operator!=(const VElem &) const; };
std::ostream &operator<<(std::ostream &, const VElem &);
#include "qlmps/one_dim_tn/mpo/mpogen/symb_alg/sparse_mat.h"
template class SparMat<VElem>;
