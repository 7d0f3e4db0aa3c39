/* Contracts for src/distribution_normal.c. */
//@property C09
//@assume libm and GSL by the contracts of include/vmath.h: exp any positive finite number, log finite and monotone, gaussian draws any finite number, tail draws not below the given limit
//@assume a request makes at most 4 gaussian draws, rejected ones included: only the values returned are decided, not that a distribution with hardly any mass in its bounds ever returns
//@assume floating point samples that overflow or underflow the format are outside the guarantee
#define NDR 4
#include "vcommon.h"
#include <gsl/gsl_rng.h>
#include "vspec.h"
#include "vobj.h"
#include "vmath.h"
#include "distribution_internal.h"
#include "valloc_fwd.h"
#include "dists.inc"
#include "distribution.c"
#include "distribution_normal.c"
#pragma pack(push, 1)
struct blk_n { struct _ccs_distribution_s s; _ccs_distribution_normal_data_t d; ccs_numeric_type_t t[1]; };
#pragma pack(pop)
#define V_BLK1 struct blk_n
#include "valloc.h"
#define FLT (CCS_NUMERIC_TYPE_FLOAT)
#define INT (CCS_NUMERIC_TYPE_INT)
static ccs_numeric_t      Q;
static double             MU, SG;
static const int64_t      TQ[5] = {0, 1, 3, -1, INT64_C(1) << 40};
static ccs_numeric_type_t TY;
static ccs_scale_type_t   SC;
static ccs_interval_t     B;
static int
fin(double x)
{
	return !v_isnan(x) && !isinf(x);
}
/* the bounds announced for each kind */
static void
bounds(void)
{
	int lg = SC == CCS_SCALE_TYPE_LOGARITHMIC;
	B.type = TY;
	if (TY == INT) {
		int64_t q = Q.i ? Q.i : 1;
		B.lower.i = lg ? q : (CCS_INT_MIN / q) * q;
		B.upper.i = (CCS_INT_MAX / q) * q;
		B.lower_included = B.upper_included = CCS_TRUE;
	} else {
		B.lower.f = lg ? Q.f : -INFINITY;
		B.upper.f = INFINITY;
		B.lower_included = lg && Q.f != 0.0 ? CCS_TRUE : CCS_FALSE;
		B.upper_included = CCS_FALSE;
	}
}
//@unit norm_create cases=4 bcases=0,1 bounded="integer quantizations of a table of five" prop=C09,C12,C14 unwind=3 funcs=ccs_create_normal_distribution,ccs_create_normal_int_distribution,ccs_create_normal_float_distribution,ccs_normal_distribution_get_properties,_ccs_distribution_normal_get_bounds,_ccs_distribution_normal_del flags="--memory-leak-check"
void
h_norm_create(void)
{
	ccs_distribution_t d = NULL;
	TY = V_CASE / 2 ? FLT : INT;
	SC = V_CASE % 2 ? CCS_SCALE_TYPE_LOGARITHMIC : CCS_SCALE_TYPE_LINEAR;
	MU = nd_f64(), SG = nd_f64();
	if (TY == INT)
		Q.i = TQ[nd_upto(4)];
	else
		Q.f = nd_f64();
	V_OOM = nd_bool();
	ccs_result_t x = nd_bool() ? ccs_create_normal_distribution(TY, MU, SG, SC, Q, &d) : TY == INT ? ccs_create_normal_int_distribution(MU, SG, SC, Q.i, &d) : ccs_create_normal_float_distribution(MU, SG, SC, Q.f, &d);
	if (!fin(MU) || !fin(SG) || (TY == INT ? Q.i < 0 : !(Q.f >= 0.0 && fin(Q.f)))) {
		v_check(x == CCS_RESULT_ERROR_INVALID_VALUE && d == NULL, "invalid quantization, mean or deviation refused");
		V_REACH("refused");
		return;
	}
	if (x != CCS_RESULT_SUCCESS) {
		v_check(V_OOM && x == CCS_RESULT_ERROR_OUT_OF_MEMORY && d == NULL, "valid arguments accepted");
		return;
	}
	ccs_numeric_t           q;
	ccs_float_t             m, g;
	ccs_scale_type_t        s;
	ccs_interval_t          i;
	ccs_distribution_type_t t;
	size_t                  n;
	ccs_numeric_type_t      dt;
	v_check(ccs_normal_distribution_get_properties(d, &m, &g, &s, &q) == CCS_RESULT_SUCCESS && m == MU && g == SG && q.i == Q.i && s == SC, "properties as given");
	bounds();
	v_check(ccs_distribution_get_bounds(d, &i) == CCS_RESULT_SUCCESS && i.type == TY && i.lower_included == B.lower_included && i.upper_included == B.upper_included, "bounds: kind");
	v_check(TY == INT ? i.lower.i == B.lower.i && i.upper.i == B.upper.i : i.lower.f == B.lower.f && i.upper.f == B.upper.f, "bounds");
	v_check(ccs_distribution_get_type(d, &t) == CCS_RESULT_SUCCESS && t == CCS_DISTRIBUTION_TYPE_NORMAL && ccs_distribution_get_dimension(d, &n) == CCS_RESULT_SUCCESS && n == 1 && ccs_distribution_get_data_types(d, &dt) == CCS_RESULT_SUCCESS && dt == TY, "type and dimension");
	v_check(ccs_normal_distribution_get_properties(NULL, &m, &g, &s, &q) < 0 && ccs_normal_distribution_get_properties(d, NULL, NULL, NULL, NULL) < 0, "bad arguments refused");
	d->obj.type = CCS_OBJECT_TYPE_RNG;
	v_check(ccs_normal_distribution_get_properties(d, &m, &g, &s, &q) < 0, "other objects refused");
	v_check(_ccs_distribution_normal_ops.obj_ops.del((ccs_object_t)d) == CCS_RESULT_SUCCESS, "deleted");
	free(d);
	V_REACH("created");
}
//@unit norm_args prop=C09,C14 unwind=3 funcs=ccs_create_normal_distribution
void
h_norm_args(void)
{
	ccs_distribution_t d = NULL;
	ccs_numeric_type_t t = (ccs_numeric_type_t)nd_u32();
	ccs_scale_type_t   s = (ccs_scale_type_t)nd_u32();
	v_check(ccs_create_normal_distribution(INT, 1.0, 1.0, CCS_SCALE_TYPE_LINEAR, CCSI(0), NULL) < 0, "no result refused");
	v_assume((t != INT && t != FLT) || (s != CCS_SCALE_TYPE_LINEAR && s != CCS_SCALE_TYPE_LOGARITHMIC));
	v_check(ccs_create_normal_distribution(t, 1.0, 1.0, s, CCSI(0), &d) < 0 && d == NULL, "unknown type or scale refused");
	V_REACH("args");
}
static const double  TM[4] = {0.0, 3.0, -7.5, 9e18};
static int
inside(ccs_numeric_t v)
{
	if (TY == INT)
		return B.lower.i <= v.i && v.i <= B.upper.i && (Q.i == 0 || v.i % Q.i == 0);
	return (SC == CCS_SCALE_TYPE_LINEAR || (Q.f == 0.0 ? v.f > 0.0 : v.f >= Q.f)) && (Q.f == 0.0 || v.f / Q.f == floor(v.f / Q.f));
}
static const double TD4[4] = {7.7, 1.5, 14.2, 4.1}, TE4[4] = {3.7, 2.5, 14.2, 8.1};
static void
kind(int c)
{
	TY = c & 1 ? FLT : INT;
	SC = c & 2 ? CCS_SCALE_TYPE_LOGARITHMIC : CCS_SCALE_TYPE_LINEAR;
	if (TY == INT)
		Q.i = c / 4 == 0 ? 0 : c / 4 == 1 ? 3 : INT64_C(1) << 40;
	else
		Q.f = c / 4 == 0 ? 0.0 : c / 4 == 1 ? 0.5 : 4.0;
	SG = 1.0;
	bounds();
}
static ccs_distribution_t
make(void)
{
	ccs_distribution_t d = NULL;
	ccs_result_t       x = ccs_create_normal_distribution(TY, MU, SG, SC, Q, &d);
	v_assume(x == CCS_RESULT_SUCCESS);
	v_draws();
	for (int k = 0; k < NDR; k++)
		v_assume(DRE[k] > 0.0 && DRE[k] < 1e300 && DRD[k] < 1e300 && DRD[k] > -1e300);
	return d;
}
//@unit norm_sample cases=12 prop=C09 unwind=7 bounded="requests of one value, at most three rejected draws, mean from a table of four, quantization 3 or 2^40, or 0.5 or 4" funcs=_ccs_distribution_normal_samples,_ccs_distribution_normal_samples_int,_ccs_distribution_normal_samples_float,_ccs_distribution_normal_strided_samples,_ccs_distribution_normal_strided_samples_int,_ccs_distribution_normal_strided_samples_float,_ccs_distribution_normal_soa_samples
void
h_norm_sample(void)
{
	ccs_numeric_t a[3], *soa[1] = {a};
	mkrng();
	MU = TM[nd_upto(3)];
	kind(V_CASE);
	ccs_distribution_t d = make();
	for (int k = 0; k < 3; k++)
		a[k].i = 77;
	int form = (int)nd_upto(2);
	ccs_result_t x = form == 0 ? ccs_distribution_sample(d, RNG, a) : form == 1 ? ccs_distribution_strided_samples(d, RNG, 1, 2, a) : ccs_distribution_soa_samples(d, RNG, 1, soa);
	v_check(x == CCS_RESULT_SUCCESS, "sampled");
	v_check(inside(a[0]), "sample inside the bounds and on the quantization grid");
	v_check(a[1].i == 77 && a[2].i == 77, "nothing written past the samples");
	V_REACH("sampled");
}
//@unit norm_forms cases=24 prop=C09 unwind=7 defs="NDR=4" bounded="requests of two values, at most two rejected draws, stride 3, one distribution of each kind, two candidates per draw" funcs=_ccs_distribution_normal_samples,_ccs_distribution_normal_samples_int,_ccs_distribution_normal_samples_float,_ccs_distribution_normal_strided_samples,_ccs_distribution_normal_strided_samples_int,_ccs_distribution_normal_strided_samples_float,_ccs_distribution_normal_soa_samples
void
h_norm_forms(void)
{
	ccs_numeric_t a[3], b[6], *soa[1];
	mkrng();
	MU = 3.0;
	kind(V_CASE & 7);
	ccs_distribution_t d = make();
	for (int k = 0; k < NDR; k++) {
		int in = nd_bool();
		DRD[k] = in ? TD4[k] : k & 1 ? 1e19 : -2.2;
		DRE[k] = in ? TE4[k] : k & 1 ? 1e19 : 1e-3;
	}
	for (int k = 0; k < 3; k++)
		a[k].i = 77;
	for (int k = 0; k < 6; k++)
		b[k].i = 77;
	v_check(ccs_distribution_samples(d, RNG, 2, a) == CCS_RESULT_SUCCESS, "sampled");
	v_check(a[2].i == 77, "nothing written past the samples");
	v_rewind();
	size_t form = V_CASE / 8, st = 1;
	if (form == 0) {
		v_check(ccs_distribution_sample(d, RNG, b) == CCS_RESULT_SUCCESS && ccs_distribution_sample(d, RNG, b + 1) == CCS_RESULT_SUCCESS, "sampled");
	} else if (form == 1) {
		soa[0] = b;
		v_check(ccs_distribution_soa_samples(d, RNG, 2, soa) == CCS_RESULT_SUCCESS, "sampled");
	} else {
		st = 3;
		v_check(ccs_distribution_strided_samples(d, RNG, 2, st, b) == CCS_RESULT_SUCCESS, "sampled");
	}
	for (size_t k = 0; k < 6; k++)
		v_check(k == 0 ? b[k].i == a[0].i : k == st ? b[k].i == a[1].i : b[k].i == 77, "every form of request writes the same values where asked and nothing else");
	soa[0] = NULL;
	v_check(ccs_distribution_soa_samples(d, RNG, 2, soa) == CCS_RESULT_SUCCESS, "dimension not asked for");
	V_REACH("sampled");
}
