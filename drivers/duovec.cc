// Instantiates the container under contract with an opaque element type (parametric proof).
#include <vector>
#include <utility>
struct VElem { VElem(); VElem(const VElem &); VElem &operator=(const VElem &); bool operator==(const VElem &) const; bool operator!=(const VElem &) const; };
#include "qlmps/one_dim_tn/framework/duovector.h"
template class qlmps::DuoVector<VElem>;
