#include "SymplecticRK.hpp"
#include "prob_other.hpp"
#define I(S) template class odes::SymplecticRK<GaussProblem<3>,S,double>; template class odes::SymplecticRK<GaussProblemL<3>,S,long double>;
I(2) I(3) I(4) I(5) I(6) I(7) I(8) I(9) I(10) I(11) I(12) I(13) I(14) I(15) I(16)
#define J(S) template struct odes::GaussianMethod<S,double>; template struct odes::GaussianMethod<S,long double>;
J(2) J(3) J(4) J(5) J(6) J(7) J(8) J(9) J(10) J(11) J(12) J(13) J(14) J(15) J(16)
