// The finite state machine as shipped; the driver only instantiates the label table.
#include <cassert>
#include <iostream>
#include <map>
#include <algorithm>
#include <vector>
#include <string>
struct VNum { VNum(int); VNum(const VNum &); VNum &operator=(const VNum &); VNum &operator+=(const VNum &); };
struct VOp { VOp(); VOp(const VOp &); VOp &operator=(const VOp &); VOp &operator+=(const VOp &); };
VOp operator*(const VNum &, const VOp &);
// objects that get labels: equality is all the label table may use
struct VObj { VObj(const VObj &); VObj &operator=(const VObj &); bool operator==(const VObj &) const; VObj operator-() const; };
#include "qlmps/one_dim_tn/mpo/mpogen/fsm.h"
template class LabelConvertor<VObj>;
