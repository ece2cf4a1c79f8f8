// The parameter parser as shipped; only the JSON library is replaced by its interface.
#include "qlmps/case_params_parser.h"
