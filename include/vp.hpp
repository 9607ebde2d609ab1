// Harness interface of the deductive verifier (see DESIGN.md).
// In the verifier these functions are interpreted symbolically; in the native
// replay (vp_native.cpp) they read a concrete input vector and evaluate.
#ifndef VP_HPP
#define VP_HPP
extern "C"
{
double vp_real(const char *name, int idx, double lo, double hi);  // arbitrary real; lo,hi only steer sampling
int vp_int(const char *name, int lo, int hi);      // arbitrary integer in [lo,hi] (symbolic)
int vp_choice(const char *name, int lo, int hi);   // every integer in [lo,hi], enumerated
bool vp_bool(const char *name);
void vp_assume(bool c);                            // requires
void vp_eq(const char *label, double a, double b); // ensures a == b over the reals
void vp_eqtol(const char *label, double a, double b, double tol); // ensures |a-b| <= tol
void vp_le(const char *label, double a, double b);
void vp_lt(const char *label, double a, double b);
void vp_true(const char *label, bool c);
void vp_ieq(const char *label, long a, long b);
void vp_fact_eq(const char *label, double a, double b); // prove, then use as a fact
double vp_fn(const char *name, int n, const double *args); // uninterpreted smooth function
double vp_dfn(const char *name, int k, int n, const double *args); // its partial derivative in argument k
double vp_cut(const char *name, double v);         // names the value v: obligations use v opaque, see vp_reveal
double vp_fresh(const char *name);                 // contract result (verifier only)
double vp_diff(double f, double x);               // d f / d x, x an input of vp_real (verifier only)
void vp_tol(double rtol);                          // relative tolerance of the native replay
void vp_cand(const char *label, bool c);             // candidate loop invariant (inside an invariant function)
void vp_reach(const char *label);                  // vacuity guard: must be reachable
void vp_log(const char *label, double a);
int vp_symbolic();                                 // 1 in the verifier, 0 in a native replay
}
#endif
