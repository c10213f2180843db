// Independent high precision reference (binary128) for the polylogarithm
// family.  It shares no code, table or algorithmic constant with /repo.
#pragma once
#include <cstdint>

namespace ref {

typedef __float128 q;

struct cq { q re, im; };

// Li_n(z).  On the cut (im == 0, re > 1) the value just below the cut is
// returned, Im(Li_n(x)) = -pi*ln(x)^(n-1)/(n-1)!, which is the convention of
// the implementation under test.
cq li(int64_t n, cq z);

// Li_n(-1) = -eta(n) for every n (infinite beyond the range of binary128)
q neg_eta(int64_t n);

// Standard Clausen (Cl) and Glaisher-Clausen (Sl) functions
q cl(int64_t n, q x);
q sl(int64_t n, q x);

} // namespace ref
