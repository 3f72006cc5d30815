// construction, copying and destruction of one owning class (OWN_INC header, OWN_T type, OWN_ARGS constructor arguments)
#include OWN_INC
#ifdef OWN_INC2
#include OWN_INC2
#endif
#include "prob_implicit.hpp"
#include "prob_other.hpp"
#include <new>
#include <type_traits>
using namespace odes;
typedef OWN_T T;
template<class U,bool B> struct Copy { static int dup(U *, const U *) { return 0; } };
template<class U> struct Copy<U,true> { static int dup(U *d, const U *s) { new(d) U(*s); return 1; } };
template<class U,bool B> struct Asg { static int set(U *, const U *) { return 0; } };
template<class U> struct Asg<U,true> { static int set(U *d, const U *s) { *d = *s; return 1; } };
extern "C" {
unsigned long o_size() { return sizeof(T); }
int o_copyable() { return std::is_copy_constructible<T>::value + 2 * std::is_copy_assignable<T>::value; }
void o_make(T *p, double *a, double *b) { (void)a; (void)b; new(p) T OWN_ARGS; }
int o_copy(T *d, const T *s) { return Copy<T,std::is_copy_constructible<T>::value>::dup(d, s); }
int o_assign(T *d, const T *s) { return Asg<T,std::is_copy_assignable<T>::value>::set(d, s); }
void o_kill(T *p) { p->~T(); }
}
