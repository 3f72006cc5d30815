#include "Sdirkl.hpp"
#include "EulerImp.hpp"
#include "CrN.hpp"
#include "RKRS.hpp"
#include "RKMethod1.hpp"
#include "RKMethod2.hpp"
#include "prob_other.hpp"
using namespace odes;
template class odes::Sdirkl<EulerImp,OpLin>;
template class odes::Sdirkl<CrN,OpLin>;
template class odes::Sdirkl<RKRS,OpLin>;
template class odes::Sdirkl<RKMethod1,OpLin>;
template class odes::Sdirkl<RKMethod2,OpLin>;
