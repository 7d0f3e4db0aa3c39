/* Contracts for src/distribution_uniform.c and the generic entry points of
 * src/distribution.c over it. */
//@property C09
//@assume libm and GSL by the contracts of include/vmath.h: exp any number >= 0, log finite and monotone, draws in their documented ranges (a flat draw may be rounded to either end)
//@assume at most 6 generator calls per request (20 for ranges wider than the generator)
#include "vcommon.h"
#include <gsl/gsl_rng.h>
#include "vspec.h"
#include "vobj.h"
#include "vmath.h"
#include "distribution_internal.h"
#include "valloc_fwd.h"
#include "dists.inc"
#include "distribution.c"
#include "distribution_uniform.c"
#pragma pack(push, 1)
struct blk_u { struct _ccs_distribution_s s; _ccs_distribution_uniform_data_t d; ccs_numeric_type_t t[1]; };
#pragma pack(pop)
#define V_BLK1 struct blk_u
#include "valloc.h"
#define FLT (CCS_NUMERIC_TYPE_FLOAT)
#define INT (CCS_NUMERIC_TYPE_INT)
static const double TF[10] = {0.0, 1.0, 2.5, 1e-300, 1.7e308, -1.7e308, -3.0, INFINITY, NAN, 4.0};
static ccs_numeric_t      LO, UP, Q;
static ccs_numeric_type_t TY;
static ccs_scale_type_t   SC;
static int
okargs(void)
{
	if (TY == INT)
		return LO.i < UP.i && (SC == CCS_SCALE_TYPE_LINEAR || LO.i > 0) && Q.i >= 0 && (uint64_t)Q.i <= (uint64_t)UP.i - (uint64_t)LO.i;
	return LO.f < UP.f && !isinf(UP.f - LO.f) && (SC == CCS_SCALE_TYPE_LINEAR || LO.f > 0.0) && Q.f >= 0.0 && Q.f <= UP.f - LO.f;
}
//@unit uni_create cases=22 bcases=2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21 prop=C09,C12,C14 unwind=3 bounded="floating point arguments from a table of ten" funcs=ccs_create_uniform_distribution,ccs_create_uniform_int_distribution,ccs_create_uniform_float_distribution,ccs_uniform_distribution_get_properties,ccs_distribution_get_bounds,ccs_distribution_get_type,ccs_distribution_get_dimension,ccs_distribution_get_data_types,_ccs_distribution_uniform_del flags="--memory-leak-check"
void
h_uni_create(void)
{
	ccs_distribution_t d = NULL;
	TY = V_CASE / 2 ? FLT : INT; /* V_CASE / 2 - 1: the lower bound */
	SC = V_CASE % 2 ? CCS_SCALE_TYPE_LOGARITHMIC : CCS_SCALE_TYPE_LINEAR;
	if (TY == INT)
		LO.i = nd_i64(), UP.i = nd_i64(), Q.i = nd_i64();
	else
		LO.f = TF[(V_CASE / 2 + 9) % 10], UP.f = TF[nd_upto(9)], Q.f = TF[nd_upto(9)];
	V_OOM = nd_bool();
	ccs_result_t x = nd_bool() ? ccs_create_uniform_distribution(TY, LO, UP, SC, Q, &d) : TY == INT ? ccs_create_uniform_int_distribution(LO.i, UP.i, SC, Q.i, &d) : ccs_create_uniform_float_distribution(LO.f, UP.f, SC, Q.f, &d);
	if (!okargs()) {
		v_check(x == CCS_RESULT_ERROR_INVALID_VALUE && d == NULL, "invalid bounds or quantization refused");
		V_REACH("refused");
		return;
	}
	if (x != CCS_RESULT_SUCCESS) {
		v_check(V_OOM && x == CCS_RESULT_ERROR_OUT_OF_MEMORY && d == NULL, "valid arguments accepted");
		return;
	}
	ccs_numeric_t           l, u, q;
	ccs_scale_type_t        s;
	ccs_interval_t          i;
	ccs_distribution_type_t t;
	size_t                  n;
	ccs_numeric_type_t      dt;
	v_check(ccs_uniform_distribution_get_properties(d, &l, &u, &s, &q) == CCS_RESULT_SUCCESS && l.i == LO.i && u.i == UP.i && q.i == Q.i && s == SC, "properties as given");
	v_check(ccs_distribution_get_bounds(d, &i) == CCS_RESULT_SUCCESS && i.type == TY && i.lower.i == LO.i && i.upper.i == UP.i && i.lower_included == CCS_TRUE && i.upper_included == CCS_FALSE, "bounds are [lower, upper)");
	v_check(ccs_distribution_get_type(d, &t) == CCS_RESULT_SUCCESS && t == CCS_DISTRIBUTION_TYPE_UNIFORM && ccs_distribution_get_dimension(d, &n) == CCS_RESULT_SUCCESS && n == 1 && ccs_distribution_get_data_types(d, &dt) == CCS_RESULT_SUCCESS && dt == TY, "type and dimension");
	v_check(d->obj.refcount == 1 && d->obj.type == CCS_OBJECT_TYPE_DISTRIBUTION, "one reference");
	v_check(ccs_uniform_distribution_get_properties(NULL, &l, &u, &s, &q) < 0 && ccs_uniform_distribution_get_properties(d, NULL, NULL, NULL, NULL) < 0 && ccs_distribution_get_bounds(d, NULL) < 0 && ccs_distribution_get_type(d, NULL) < 0 && ccs_distribution_get_dimension(d, NULL) < 0 && ccs_distribution_get_data_types(d, NULL) < 0, "bad arguments refused");
	d->obj.type = CCS_OBJECT_TYPE_RNG;
	v_check(ccs_uniform_distribution_get_properties(d, &l, &u, &s, &q) < 0 && ccs_distribution_get_bounds(d, &i) < 0 && ccs_distribution_get_type(d, &t) < 0, "other objects refused");
	v_check(_ccs_distribution_uniform_ops.obj_ops.del((ccs_object_t)d) == CCS_RESULT_SUCCESS, "deleted");
	free(d);
#if !(V_CASE == 3 || V_CASE == 10 || V_CASE == 11 || V_CASE == 13 || V_CASE >= 15 && V_CASE <= 19) /* lower bounds never accepted */
	V_REACH("created");
#endif
}
//@unit uni_args prop=C09,C14 unwind=3 funcs=ccs_create_uniform_distribution
void
h_uni_args(void)
{
	ccs_distribution_t d = NULL;
	ccs_numeric_type_t t = (ccs_numeric_type_t)nd_u32();
	ccs_scale_type_t   s = (ccs_scale_type_t)nd_u32();
	ccs_numeric_t      l = CCSI(1), u = CCSI(5), q = CCSI(0);
	v_check(ccs_create_uniform_distribution(INT, l, u, CCS_SCALE_TYPE_LINEAR, q, NULL) < 0, "no result refused");
	v_assume((t != INT && t != FLT) || (s != CCS_SCALE_TYPE_LINEAR && s != CCS_SCALE_TYPE_LOGARITHMIC));
	v_check(ccs_create_uniform_distribution(t, l, u, s, q, &d) < 0 && d == NULL, "unknown type or scale refused");
	V_REACH("args");
}
/* a distribution as create leaves it */
static void
make(ccs_distribution_t *d)
{
	V_OOM          = 0;
	ccs_result_t x = ccs_create_uniform_distribution(TY, LO, UP, SC, Q, d);
	v_assume(x == CCS_RESULT_SUCCESS);
}
static const int64_t TLI[4] = {-7, 1, 5, INT64_C(1) << 40};
static const double  TQF[3] = {0.5, 1.0, 2.0}, TLF[3] = {0.0, 1.0, -2.0}, TNF[3] = {2.0, 3.5, 7.0};
static int
inside(ccs_numeric_t v)
{
	return TY == INT ? LO.i <= v.i && v.i < UP.i : LO.f <= v.f && v.f < UP.f;
}
/* where values lie on a grid of exact numbers */
static int
ongrid(ccs_numeric_t v)
{
	if (TY == INT)
		return Q.i == 0 || ((uint64_t)v.i - (uint64_t)LO.i) % (uint64_t)Q.i == 0;
	if (Q.f == 0.0)
		return 1;
	for (int k = 0; k < 14; k++)
		if (v.f == LO.f + k * Q.f)
			return 1;
	return 0;
}
static void
params(int c)
{
	TY = c & 1 ? FLT : INT;
	SC = c & 2 ? CCS_SCALE_TYPE_LOGARITHMIC : CCS_SCALE_TYPE_LINEAR;
	if (TY == INT) {
		LO.i = nd_i64(), UP.i = nd_i64();
		Q.i = c & 4 ? 3 : 0;
		if (c & 4) {
			LO.i = TLI[nd_upto(3)];
			UP.i = LO.i + (int64_t)nd_upto(1000);
		}
		v_assume((uint64_t)UP.i - (uint64_t)LO.i <= V_RNG_MAX);
	} else if (c & 4)
		LO.f = TLF[nd_upto(2)], Q.f = TQF[nd_upto(2)], UP.f = LO.f + TNF[nd_upto(2)];
	else
		LO.f = nd_f64(), UP.f = nd_f64(), Q.f = 0.0;
	v_assume(okargs());
}
//@unit uni_sample cases=8 prop=C09 unwind=15 bounded="requests of up to two values, stride up to 3; quantization 3 over ranges of up to 1000, or from a table with exact floating point steps" funcs=_ccs_distribution_uniform_samples,_ccs_distribution_uniform_strided_samples,_ccs_distribution_uniform_soa_samples,ccs_distribution_sample,ccs_distribution_samples,ccs_distribution_strided_samples,ccs_distribution_soa_samples
void
h_uni_sample(void)
{
	ccs_distribution_t d = NULL;
	ccs_numeric_t      b[6], *soa[1];
	mkrng();
	params(V_CASE);
	make(&d);
	v_draws();
	for (int k = 0; k < 6; k++)
		b[k].i = 77;
	size_t form = nd_upto(5), st = 1, n = 2;
	if (form == 0) {
		n = 1;
		v_check(ccs_distribution_sample(d, RNG, b) == CCS_RESULT_SUCCESS, "sampled");
	} else if (form == 1) {
		soa[0] = b;
		v_check(ccs_distribution_soa_samples(d, RNG, 2, soa) == CCS_RESULT_SUCCESS, "sampled");
	} else if (form == 5) {
		v_check(ccs_distribution_samples(d, RNG, 2, b) == CCS_RESULT_SUCCESS, "sampled");
	} else {
		st = form - 1;
		v_check(ccs_distribution_strided_samples(d, RNG, 2, st, b) == CCS_RESULT_SUCCESS, "sampled");
	}
	for (size_t k = 0; k < 6; k++)
		if (k == 0 || n == 2 && k == st) {
			v_check(inside(b[k]), "sample inside the bounds");
			v_check(ongrid(b[k]), "sample on the quantization grid");
		} else
			v_check(b[k].i == 77, "nothing but the requested cells written");
	V_REACH("sampled");
#if V_CASE == 0 || V_CASE == 2
	if (b[0].i == UP.i - 1)
		V_COVER("the last value can be drawn");
	if (b[0].i == LO.i)
		V_COVER("the first value can be drawn");
#endif
}
/* cell by cell comparison of every request form with the plain one */
//@unit uni_forms cases=8 prop=C09 unwind=15 bounded="requests of two values, stride up to 3, one distribution of each kind" funcs=_ccs_distribution_uniform_samples,_ccs_distribution_uniform_strided_samples,_ccs_distribution_uniform_soa_samples,ccs_distribution_sample,ccs_distribution_samples,ccs_distribution_strided_samples,ccs_distribution_soa_samples
void
h_uni_forms(void)
{
	ccs_distribution_t d = NULL;
	ccs_numeric_t      a[2], b[6], *soa[1];
	mkrng();
	TY = V_CASE & 1 ? FLT : INT;
	SC = V_CASE & 2 ? CCS_SCALE_TYPE_LOGARITHMIC : CCS_SCALE_TYPE_LINEAR;
	if (TY == INT)
		LO.i = 2, UP.i = 23, Q.i = V_CASE & 4 ? 3 : 0;
	else
		LO.f = 2.0, UP.f = 23.5, Q.f = V_CASE & 4 ? 0.5 : 0.0;
	make(&d);
	v_draws();
	for (int k = 0; k < 6; k++)
		b[k].i = 77;
	v_check(ccs_distribution_samples(d, RNG, 2, a) == CCS_RESULT_SUCCESS, "sampled");
	v_rewind();
	size_t form = nd_upto(4), st = 1;
	if (form == 0) {
		v_check(ccs_distribution_sample(d, RNG, b) == CCS_RESULT_SUCCESS && ccs_distribution_sample(d, RNG, b + 1) == CCS_RESULT_SUCCESS, "sampled");
	} else if (form == 1) {
		soa[0] = b;
		v_check(ccs_distribution_soa_samples(d, RNG, 2, soa) == CCS_RESULT_SUCCESS, "sampled");
	} else {
		st = form - 1;
		v_check(ccs_distribution_strided_samples(d, RNG, 2, st, b) == CCS_RESULT_SUCCESS, "sampled");
	}
	for (size_t k = 0; k < 6; k++)
		v_check(k == 0 ? b[k].i == a[0].i : k == st ? b[k].i == a[1].i : b[k].i == 77, "every form of request writes the same values where asked and nothing else");
	V_REACH("sampled");
}
static const int64_t TWL[3] = {INT64_MIN, -5, 0}, TWU[3] = {INT64_MAX, INT64_C(1) << 40, INT64_C(1) << 62};
/* ranges wider than one generator call */
//@unit uni_wide cases=2 prop=C09 unwind=21 defs="NDR=17" bounded="one value, no quantization, or quantization 3 with bounds of a table, at most one rejected draw" funcs=_ccs_distribution_uniform_samples,_ccs_distribution_uniform_strided_samples
void
h_uni_wide(void)
{
	ccs_distribution_t d = NULL;
	ccs_numeric_t      a[2], b[2];
	mkrng();
	TY = INT, SC = CCS_SCALE_TYPE_LINEAR;
	if (V_CASE)
		LO.i = TWL[nd_upto(2)], UP.i = TWU[nd_upto(2)], Q.i = 3;
	else
		LO.i = nd_i64(), UP.i = nd_i64(), Q.i = 0;
	v_assume(okargs() && (uint64_t)UP.i - (uint64_t)LO.i > V_RNG_MAX);
	make(&d);
	v_draws();
	a[1].i = b[1].i = 77;
	v_check(ccs_distribution_samples(d, RNG, 1, a) == CCS_RESULT_SUCCESS, "sampled");
	v_check(inside(a[0]) && a[1].i == 77, "sample inside the bounds");
	v_check(ongrid(a[0]), "sample on the quantization grid");
	v_rewind();
	v_check(ccs_distribution_strided_samples(d, RNG, 1, 2, b) == CCS_RESULT_SUCCESS && b[0].i == a[0].i && b[1].i == 77, "strided request writes the same value");
	V_REACH("sampled");
#if V_CASE == 0
	if (a[0].i == UP.i - 1)
		V_COVER("the last value can be drawn");
#endif
	if (a[0].i == LO.i)
		V_COVER("the first value can be drawn");
}
//@unit dist_args prop=C09,C14 unwind=3 funcs=ccs_distribution_sample,ccs_distribution_samples,ccs_distribution_strided_samples,ccs_distribution_soa_samples
void
h_dist_args(void)
{
	ccs_distribution_t d = NULL;
	ccs_numeric_t      a[2], *soa[1] = {NULL};
	mkrng();
	a[0].i = a[1].i = 77;
	TY = INT, SC = CCS_SCALE_TYPE_LINEAR, LO.i = 0, UP.i = 5, Q.i = 0;
	make(&d);
	v_draws();
	size_t n = (size_t)nd_u64();
	v_check(IFF(ccs_distribution_samples(d, RNG, n, NULL) == CCS_RESULT_SUCCESS, n == 0) && IFF(ccs_distribution_strided_samples(d, RNG, n, 1, NULL) == CCS_RESULT_SUCCESS, n == 0) && IFF(ccs_distribution_soa_samples(d, RNG, n, NULL) == CCS_RESULT_SUCCESS, n == 0) && ccs_distribution_sample(d, RNG, NULL) < 0, "no room for the samples refused");
	v_check(ccs_distribution_strided_samples(d, RNG, 1, 0, a) < 0 && a[0].i == 77, "stride below the dimension refused");
	v_check(ccs_distribution_soa_samples(d, RNG, n, soa) == CCS_RESULT_SUCCESS && DRN == 0, "dimension not asked for, nothing drawn");
	v_check(ccs_distribution_samples(d, NULL, 1, a) < 0 && ccs_distribution_strided_samples(d, NULL, 1, 1, a) < 0 && ccs_distribution_soa_samples(d, NULL, 1, soa) < 0 && ccs_distribution_sample(d, NULL, a) < 0, "no generator refused");
	v_check(ccs_distribution_samples(NULL, RNG, 1, a) < 0 && ccs_distribution_strided_samples(NULL, RNG, 1, 1, a) < 0 && ccs_distribution_soa_samples(NULL, RNG, 1, soa) < 0 && ccs_distribution_sample(NULL, RNG, a) < 0, "no distribution refused");
	v_check(a[0].i == 77 && a[1].i == 77, "nothing written by refused requests");
	V_REACH("args");
}
