#include "Rock4.hpp"
#include "prob_other.hpp"
template class odes::Rock4<RockProblem>;
