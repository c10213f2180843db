// C++ entry points
#include "api.h"
#include "Cl.hpp"
#include "Cl1.hpp"
#include "Cl2.hpp"
#include "Cl3.hpp"
#include "Cl4.hpp"
#include "Cl5.hpp"
#include "Cl6.hpp"
#include "Li.hpp"
#include "Li2.hpp"
#include "Li3.hpp"
#include "Li4.hpp"
#include "Li5.hpp"
#include "Li6.hpp"
#include "Sl.hpp"
#include <complex>

namespace {
typedef std::complex<float> CF;
typedef std::complex<double> CD;
typedef std::complex<long double> CL;
typedef long double LD;

// the argument is passed on as the caller's object itself
#define FIXED(NAME, F, T) \
   void NAME(int64_t, const void* a, void* r) { *static_cast<T*>(r) = polylogarithm::F(*static_cast<const T*>(a)); }
#define GENERAL(NAME, F, T) \
   void NAME(int64_t n, const void* a, void* r) { *static_cast<T*>(r) = polylogarithm::F(n, *static_cast<const T*>(a)); }

FIXED(cl1d,Cl1,double) FIXED(cl2d,Cl2,double) FIXED(cl3d,Cl3,double)
FIXED(cl4d,Cl4,double) FIXED(cl5d,Cl5,double) FIXED(cl6d,Cl6,double)
FIXED(cl2l,Cl2,LD) FIXED(cl3l,Cl3,LD) FIXED(cl4l,Cl4,LD) FIXED(cl5l,Cl5,LD) FIXED(cl6l,Cl6,LD)
GENERAL(cln,Cl,double) GENERAL(sln,Sl,double) GENERAL(lin,Li,CD)
FIXED(li2f,Li2,float) FIXED(li2d,Li2,double) FIXED(li2l,Li2,LD) FIXED(li3d,Li3,double) FIXED(li4d,Li4,double)
FIXED(li2cf,Li2,CF) FIXED(li2cd,Li2,CD) FIXED(li2cl,Li2,CL)
FIXED(li3cd,Li3,CD) FIXED(li3cl,Li3,CL) FIXED(li4cd,Li4,CD) FIXED(li4cl,Li4,CL)
FIXED(li5cd,Li5,CD) FIXED(li5cl,Li5,CL) FIXED(li6cd,Li6,CD) FIXED(li6cl,Li6,CL)
}

#define E(S,f,fam,o,p,c) { "cpp:" S, f, L_CPP, fam, o, p, c }
extern "C" {
extern const struct api_fn api_cpp[] = {
   E("Cl1d",cl1d,F_CL,1,P_DOUBLE,0), E("Cl2d",cl2d,F_CL,2,P_DOUBLE,0), E("Cl3d",cl3d,F_CL,3,P_DOUBLE,0),
   E("Cl4d",cl4d,F_CL,4,P_DOUBLE,0), E("Cl5d",cl5d,F_CL,5,P_DOUBLE,0), E("Cl6d",cl6d,F_CL,6,P_DOUBLE,0),
   E("Cl2l",cl2l,F_CL,2,P_LDOUBLE,0), E("Cl3l",cl3l,F_CL,3,P_LDOUBLE,0), E("Cl4l",cl4l,F_CL,4,P_LDOUBLE,0),
   E("Cl5l",cl5l,F_CL,5,P_LDOUBLE,0), E("Cl6l",cl6l,F_CL,6,P_LDOUBLE,0),
   E("Cl",cln,F_CL,0,P_DOUBLE,0), E("Sl",sln,F_SL,0,P_DOUBLE,0), E("Li",lin,F_LI,0,P_DOUBLE,1),
   E("Li2f",li2f,F_LI,2,P_FLOAT,0), E("Li2d",li2d,F_LI,2,P_DOUBLE,0), E("Li2l",li2l,F_LI,2,P_LDOUBLE,0),
   E("Li3d",li3d,F_LI,3,P_DOUBLE,0), E("Li4d",li4d,F_LI,4,P_DOUBLE,0),
   E("Li2cf",li2cf,F_LI,2,P_FLOAT,1), E("Li2cd",li2cd,F_LI,2,P_DOUBLE,1), E("Li2cl",li2cl,F_LI,2,P_LDOUBLE,1),
   E("Li3cd",li3cd,F_LI,3,P_DOUBLE,1), E("Li3cl",li3cl,F_LI,3,P_LDOUBLE,1),
   E("Li4cd",li4cd,F_LI,4,P_DOUBLE,1), E("Li4cl",li4cl,F_LI,4,P_LDOUBLE,1),
   E("Li5cd",li5cd,F_LI,5,P_DOUBLE,1), E("Li5cl",li5cl,F_LI,5,P_LDOUBLE,1),
   E("Li6cd",li6cd,F_LI,6,P_DOUBLE,1), E("Li6cl",li6cl,F_LI,6,P_LDOUBLE,1),
};
extern const int api_cpp_len = sizeof(api_cpp)/sizeof(api_cpp[0]);
}
