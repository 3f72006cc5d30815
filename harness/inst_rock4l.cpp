#include "Rock4L.hpp"
#include "prob_other.hpp"
template class odes::Rock4L<LinProblem,false>;
template class odes::Rock4L<LinProblem,true>;
