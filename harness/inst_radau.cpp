#include "Radau5cc.hpp"
#include "prob_implicit.hpp"
using namespace odes;
template class odes::Radau5cc<Problem<4,3,3,true,true> >;
template class odes::Radau5cc<Problem<3,2,2,false,true> >;
template class odes::Radau5cc<Problem<4,1,2,false,true> >;
template class odes::Radau5cc<Problem<5,2,1,false,false> >;
template class odes::Radau5cc<Problem<4,3,3,true,false> >;
