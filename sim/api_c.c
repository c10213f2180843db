/* C and Fortran entry points */
#include "api.h"
#include "Cl2.h"
#include "Cl3.h"
#include "Cl4.h"
#include "Cl5.h"
#include "Cl6.h"
#include "Li2.h"
#include "Li3.h"
#include "Li4.h"
#include "Li5.h"
#include "Li6.h"

#define W(F,TA,TR) static void w_##F(int64_t n, const void* a, void* r) { (void)n; *(TR*)r = F(*(const TA*)a); }
#define D double
#define L long double
#define F float
#define CD double _Complex
#define CL long double _Complex
#define CF float _Complex

W(cl2,D,D) W(cl3,D,D) W(cl4,D,D) W(cl5,D,D) W(cl6,D,D)
W(cl2l,L,L) W(cl3l,L,L) W(cl4l,L,L) W(cl5l,L,L) W(cl6l,L,L)
W(li2f,F,F) W(li2,D,D) W(li2l,L,L) W(cli2f,CF,CF) W(cli2,CD,CD) W(cli2l,CL,CL)
W(li3,D,D) W(cli3,CD,CD) W(cli3l,CL,CL)
W(li4,D,D) W(cli4,CD,CD) W(cli4l,CL,CL)
W(cli5,CD,CD) W(cli5l,CL,CL)
W(cli6,CD,CD) W(cli6l,CL,CL)

/* gfortran passes by reference and returns complex like C _Complex */
#define WF(F,TA,TR) extern TR F##_(TA*); static void wf_##F(int64_t n, const void* a, void* r) { (void)n; *(TR*)r = F##_((TA*)a); }
WF(dcl2,D,D) WF(dcl3,D,D) WF(dcl4,D,D) WF(dcl5,D,D) WF(dcl6,D,D)
WF(dli2,D,D) WF(dli3,D,D) WF(dli4,D,D)
WF(cdli2,CD,CD) WF(cdli3,CD,CD) WF(cdli4,CD,CD) WF(cdli5,CD,CD) WF(cdli6,CD,CD)

#define E(F,fam,o,p,c) { "c:" #F, w_##F, L_C, fam, o, p, c }
#define EF(F,fam,o,c) { "f:" #F, wf_##F, L_FORTRAN, fam, o, P_DOUBLE, c }

const struct api_fn api_c[] = {
   E(cl2,F_CL,2,P_DOUBLE,0), E(cl3,F_CL,3,P_DOUBLE,0), E(cl4,F_CL,4,P_DOUBLE,0),
   E(cl5,F_CL,5,P_DOUBLE,0), E(cl6,F_CL,6,P_DOUBLE,0),
   E(cl2l,F_CL,2,P_LDOUBLE,0), E(cl3l,F_CL,3,P_LDOUBLE,0), E(cl4l,F_CL,4,P_LDOUBLE,0),
   E(cl5l,F_CL,5,P_LDOUBLE,0), E(cl6l,F_CL,6,P_LDOUBLE,0),
   E(li2f,F_LI,2,P_FLOAT,0), E(li2,F_LI,2,P_DOUBLE,0), E(li2l,F_LI,2,P_LDOUBLE,0),
   E(cli2f,F_LI,2,P_FLOAT,1), E(cli2,F_LI,2,P_DOUBLE,1), E(cli2l,F_LI,2,P_LDOUBLE,1),
   E(li3,F_LI,3,P_DOUBLE,0), E(cli3,F_LI,3,P_DOUBLE,1), E(cli3l,F_LI,3,P_LDOUBLE,1),
   E(li4,F_LI,4,P_DOUBLE,0), E(cli4,F_LI,4,P_DOUBLE,1), E(cli4l,F_LI,4,P_LDOUBLE,1),
   E(cli5,F_LI,5,P_DOUBLE,1), E(cli5l,F_LI,5,P_LDOUBLE,1),
   E(cli6,F_LI,6,P_DOUBLE,1), E(cli6l,F_LI,6,P_LDOUBLE,1),
   EF(dcl2,F_CL,2,0), EF(dcl3,F_CL,3,0), EF(dcl4,F_CL,4,0), EF(dcl5,F_CL,5,0), EF(dcl6,F_CL,6,0),
   EF(dli2,F_LI,2,0), EF(dli3,F_LI,3,0), EF(dli4,F_LI,4,0),
   EF(cdli2,F_LI,2,1), EF(cdli3,F_LI,3,1), EF(cdli4,F_LI,4,1), EF(cdli5,F_LI,5,1), EF(cdli6,F_LI,6,1),
};
const int api_c_len = sizeof(api_c)/sizeof(api_c[0]);
