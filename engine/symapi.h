// Harness interface.  The same harness source is linked twice: against symrt.cpp (instrumented,
// inputs are symbolic) and against replayrt.cpp (plain build of the real code, inputs are the
// solver's concrete counterexample).
#pragma once
namespace se {
// a symbolic real input in [lo, hi]; seed is the value the first concrete-guided run uses
double real(const char* name, double lo, double hi, double seed);
// nondeterministic choice 0..n-1: every alternative is explored
int choice(const char* name, int n);
// constraints on the inputs (part of the stated precondition)
void assume_le(double a, double b);
void assume_lt(double a, double b);
void assume_eq(double a, double b);
void assume_ne(double a, double b);
// obligations
void eq(const char* what, double a, double b, double tol = 1e-8);
void le(const char* what, double a, double b, double tol = 1e-8);  // a <= b + tol
void lt(const char* what, double a, double b);                      // a < b, strict
void truth(const char* what, bool ok);                              // decided on this path
void finite(const char* what, double a);                            // every division/root it uses is defined
// vacuity witness
void reach(const char* what);
// name helper: se::nm("u", i, j) -> "u_i_j" (storage is kept)
const char* nm(const char* base, int i, int j = -1, int k = -1);
// decimal text of v (storage is kept).  In the symbolic build it is a unique stand-in numeral, and a number parsed back from it by the
// standard library (stream extraction, strtod, stod, atof) is v itself, so text inputs stay symbolic.
const char* text(double v);
bool symbolic();        // true in the symbolic build
void quit();            // end this path quietly (precondition not met)
}  // namespace se
// each harness defines
void harness(const char* case_name);
