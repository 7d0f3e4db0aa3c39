/* Contracts assumed of libm and GSL by the units over distributions.
 *
 *  exp        any number >= 0, possibly infinite (never NaN for a number)
 *  log        any finite number for a positive finite argument, monotone
 *  nextafter  exact
 *  generator  numbers of the documented ranges, see each function
 *
 * DR[] holds what the generator delivers, call after call: two runs that make
 * the same calls get the same numbers (v_rewind). */
#ifndef VMATH_H
#define VMATH_H
#include <math.h>
#ifndef NDR
#define NDR 6
#endif
static uint64_t DRU[NDR];
static double   DRD[NDR], DRE[NDR];
static int      DRN, DREN;
static void
v_draws(void)
{
	for (int k = 0; k < NDR; k++) {
		DRU[k] = nd_u64();
		DRD[k] = nd_f64();
		DRE[k] = nd_f64();
		v_assume(!v_isnan(DRD[k]) && !isinf(DRD[k]));
		v_assume(DRE[k] >= 0.0);
	}
	DRN = DREN = 0;
}
static void
v_rewind(void)
{
	DRN = DREN = 0;
}
static inline double
v_exp(double x)
{
	v_assume(DREN < NDR);
	v_check(!v_isnan(x), "exp of a number");
	return DRE[DREN++];
}
static double LX, LR;
static int    LN;
static inline double
v_log(double x)
{
	v_check(x > 0.0 && !isinf(x), "log of a positive number");
	double r = nd_f64();
	v_assume(r > -1e3 && r < 1e3);
	/* monotone over two consecutive calls */
	v_assume(LN == 0 || IMPLIES(LX <= x, LR <= r) && IMPLIES(LX >= x, LR >= r));
	LN = 1, LX = x, LR = r;
	return r;
}
#define exp v_exp
#define log v_log
#ifdef V_CBMC
double
nextafter(double x, double y)
{
	union { double d; int64_t i; } v;
	if (v_isnan(x) || v_isnan(y))
		return x + y;
	if (x == y)
		return y;
	if (x == 0.0) {
		v.i = 1;
		return y > 0.0 ? v.d : -v.d;
	}
	v.d = x;
	v.i += ((x < y) == (x > 0.0)) ? 1 : -1;
	return v.d;
}
#endif
struct v_gsl_s { int dummy; };
#define V_RNG_MAX 0xffffffffUL
unsigned long
gsl_rng_max(const gsl_rng *r)
{
	(void)r;
	return V_RNG_MAX;
}
unsigned long
gsl_rng_min(const gsl_rng *r)
{
	(void)r;
	return 0;
}
/* an integer of [0, n), n within the range of the generator */
unsigned long
gsl_rng_uniform_int(const gsl_rng *r, unsigned long n)
{
	(void)r;
	v_check(n > 0 && n <= V_RNG_MAX, "generator asked for a range it supports");
	v_assume(DRN < NDR && DRU[DRN] < n);
	return DRU[DRN++];
}
/* a number of [0, 1) */
double
gsl_rng_uniform(const gsl_rng *r)
{
	(void)r;
	v_assume(DRN < NDR && DRD[DRN] >= 0.0 && DRD[DRN] < 1.0);
	return DRD[DRN++];
}
/* a number of [a, b]: the documented [a, b) before rounding */
double
gsl_ran_flat(const gsl_rng *r, double a, double b)
{
	(void)r;
	v_assume(DRN < NDR && DRD[DRN] >= (a < b ? a : b) && DRD[DRN] <= (a < b ? b : a));
	return DRD[DRN++];
}
/* any finite number */
double
gsl_ran_gaussian(const gsl_rng *r, double sigma)
{
	(void)r;
	(void)sigma;
	v_assume(DRN < NDR);
	return DRD[DRN++];
}
/* any finite number not below a */
double
gsl_ran_gaussian_tail(const gsl_rng *r, double a, double sigma)
{
	(void)r;
	(void)sigma;
	v_assume(DRN < NDR && DRD[DRN] >= a);
	return DRD[DRN++];
}
#endif
