#include "Rodascc.hpp"
#include "prob_implicit.hpp"
using namespace odes;
template class odes::Rodascc<Problem<4,3,3,true,true,1,true,false> >;
template class odes::Rodascc<Problem<3,2,2,false,true,2,false,false> >;
template class odes::Rodascc<Problem<4,1,2,false,true,3,false,true> >;
template class odes::Rodascc<Problem<5,2,1,false,false,1,false,true> >;
template class odes::Rodascc<Problem<4,3,3,true,false,3,true,false> >;
