#!/usr/bin/env python3
"""Generates the libm seam: for every function of the mathematical library a
wrapper sim_<name> which is one step of logical time and, under a last-place
personality, returns the real result moved by at most one unit in the last
place.  usage: libm.py cpp|names"""
import sys
one = "acos asin atan cos sin tan acosh asinh atanh cosh sinh tanh exp exp2 exp10 expm1 log log2 log10 log1p cbrt erf erfc tgamma lgamma".split()
exact1 = "sqrt fabs ceil floor trunc round nearbyint rint".split()
two = "atan2 pow hypot".split()
exact2 = "fmod remainder copysign fmax fmin fdim nextafter".split()
c_c = "clog cexp csqrt csin ccos ctan csinh ccosh ctanh casin cacos catan casinh cacosh catanh".split()
c_r = "cabs carg".split()
SFX = [("f", "float"), ("", "double"), ("l", "long double")]
names = []
out = []
def emit(n, text):
    names.append(n); out.append(text)
for fs, T in SFX:
    for i, b in enumerate(one):
        n = b + fs
        emit(n, f'SIM1({n}, {T}, {1+i})')
    for b in exact1:
        n = b + fs
        emit(n, f'SIM1X({n}, {T})')
    for i, b in enumerate(two):
        n = b + fs
        emit(n, f'SIM2({n}, {T}, {50+i})')
    for b in exact2:
        n = b + fs
        emit(n, f'SIM2X({n}, {T})')
    for i, b in enumerate(c_c):
        n = b + fs
        emit(n, f'SIMC({n}, {T}, {70+i})')
    for i, b in enumerate(c_r):
        n = b + fs
        emit(n, f'SIMCR({n}, {T}, {100+i})')
    n = "cpow" + fs; emit(n, f'SIMC2({n}, {T}, 110)')
    n = "sincos" + fs; emit(n, f'SIMSC({n}, {T}, {one.index("sin")+1}, {one.index("cos")+1})')
    n = "ldexp" + fs; emit(n, f'SIMI({n}, {T}, int)')
    n = "scalbn" + fs; emit(n, f'SIMI({n}, {T}, int)')
    n = "fma" + fs; emit(n, f'SIM3X({n}, {T})')
if sys.argv[1] == "names":
    print("\n".join(names))
else:
    print("\n".join(out))
