/* Contracts for src/distribution_roulette.c, the area arithmetic and the search
 * of src/distribution_internal.h. */
//@property C09
//@assume gsl_rng_uniform returns a number of [0, 1) (GSL documentation)
//@assume at most 6 generator calls per request
#include "vcommon.h"
#include <gsl/gsl_rng.h>
#include "vspec.h"
#include "vobj.h"
#include "vmath.h"
#include "distribution_internal.h"
#include "valloc_fwd.h"
#include "dists.inc"
#include "distribution.c"
#include "distribution_roulette.c"
#pragma pack(push, 1)
struct blk_r1 { struct _ccs_distribution_s s; _ccs_distribution_roulette_data_t d; ccs_float_t a[2]; ccs_numeric_type_t t[1]; };
struct blk_r2 { struct _ccs_distribution_s s; _ccs_distribution_roulette_data_t d; ccs_float_t a[3]; ccs_numeric_type_t t[1]; };
struct blk_r3 { struct _ccs_distribution_s s; _ccs_distribution_roulette_data_t d; ccs_float_t a[4]; ccs_numeric_type_t t[1]; };
struct blk_r4 { struct _ccs_distribution_s s; _ccs_distribution_roulette_data_t d; ccs_float_t a[5]; ccs_numeric_type_t t[1]; };
#pragma pack(pop)
#define V_BLK1 struct blk_r1
#define V_BLK2 struct blk_r2
#define V_BLK3 struct blk_r3
#define V_BLK4 struct blk_r4
#include "valloc.h"
#define NA (V_CASE + 1)
static const double TA[5] = {0.0, 1.0, 3.0, 1e300, -1.0};
static double       AR[5], SUM;
static int
bad(void)
{
	int b = 0;
	SUM   = 0.0;
	for (int k = 0; k < NA; k++) {
		b |= AR[k] < 0.0;
		SUM += AR[k];
	}
	return b || SUM == 0.0;
}
static void
areas(int top)
{
	for (int k = 0; k < NA; k++)
		AR[k] = TA[nd_upto(top)];
}
//@unit rou_create cases=4 prop=C09,C12,C14 unwind=6 bounded="up to four areas of a table of five values" funcs=ccs_create_roulette_distribution,_ccs_distribution_roulette_validate_areas,_ccs_distribution_roulette_normalize_areas,ccs_roulette_distribution_get_num_areas,ccs_roulette_distribution_get_areas,_ccs_distribution_roulette_get_bounds,_ccs_distribution_roulette_del flags="--memory-leak-check"
void
h_rou_create(void)
{
	ccs_distribution_t d = NULL;
	areas(4);
	V_OOM = nd_bool();
	int inv = bad();
	ccs_result_t x = ccs_create_roulette_distribution(NA, AR, &d);
	if (inv) {
		v_check(x == CCS_RESULT_ERROR_INVALID_VALUE && d == NULL, "negative or null areas refused");
		V_REACH("refused");
		return;
	}
	if (x != CCS_RESULT_SUCCESS) {
		v_check(d == NULL && V_OOM && x == CCS_RESULT_ERROR_OUT_OF_MEMORY, "valid areas accepted");
		return;
	}
	_ccs_distribution_roulette_data_t *r = (_ccs_distribution_roulette_data_t *)d->data;
	v_check(r->areas[0] == 0.0 && r->areas[NA] == 1.0, "areas cover [0, 1]");
	for (int k = 0; k < NA; k++) {
		v_check(r->areas[k] <= r->areas[k + 1], "areas are ordered");
		v_check(k == NA - 1 || AR[k] != 0.0 || r->areas[k] == r->areas[k + 1], "no area for a null weight");
	}
	ccs_interval_t          i;
	size_t                  n = 0;
	ccs_distribution_type_t t;
	ccs_numeric_type_t      dt;
	v_check(ccs_distribution_get_bounds(d, &i) == CCS_RESULT_SUCCESS && i.type == CCS_NUMERIC_TYPE_INT && i.lower.i == 0 && i.upper.i == NA && i.lower_included == CCS_TRUE && i.upper_included == CCS_FALSE, "bounds are the indices of the areas");
	v_check(ccs_distribution_get_dimension(d, &n) == CCS_RESULT_SUCCESS && n == 1 && ccs_distribution_get_type(d, &t) == CCS_RESULT_SUCCESS && t == CCS_DISTRIBUTION_TYPE_ROULETTE && ccs_distribution_get_data_types(d, &dt) == CCS_RESULT_SUCCESS && dt == CCS_NUMERIC_TYPE_INT, "type and dimension");
	v_check(ccs_roulette_distribution_get_num_areas(d, &n) == CCS_RESULT_SUCCESS && n == NA, "number of areas");
	size_t m = nd_upto(5);
	double o[5] = {77, 77, 77, 77, 77};
	int    want = nd_bool();
	x = ccs_roulette_distribution_get_areas(d, m, m ? o : NULL, want ? &n : NULL);
	v_check(IFF(x == CCS_RESULT_SUCCESS, m == 0 ? want : m >= NA), "areas: array large enough or count asked");
	for (size_t k = 0; k < 5; k++)
		v_check(x == CCS_RESULT_SUCCESS && k < m ? (k < NA ? o[k] == r->areas[k < NA ? k + 1 : 0] - r->areas[k < NA ? k : 0] : o[k] == 0.0) : o[k] == 77, "areas: normalized, then zero");
	v_check(ccs_roulette_distribution_get_num_areas(d, NULL) < 0 && ccs_roulette_distribution_get_areas(d, 1, NULL, &n) < 0 && ccs_create_roulette_distribution(0, NULL, &d) < 0 && ccs_create_roulette_distribution(1, NULL, &d) < 0 && ccs_create_roulette_distribution(NA, AR, NULL) < 0, "bad arguments refused");
	d->data = (_ccs_distribution_data_t *)r;
	r->common_data.type = CCS_DISTRIBUTION_TYPE_UNIFORM;
	v_check(ccs_roulette_distribution_get_num_areas(d, &n) < 0 && ccs_roulette_distribution_get_areas(d, 5, o, &n) < 0, "other distributions refused");
	v_check(_ccs_distribution_roulette_ops.obj_ops.del((ccs_object_t)d) == CCS_RESULT_SUCCESS, "deleted");
	free(d);
	V_REACH("created");
}
//@unit rou_sample cases=4 prop=C09 unwind=7 bounded="up to four areas, requests of up to two values, stride up to 3" funcs=_ccs_distribution_roulette_samples,_ccs_distribution_roulette_strided_samples,_ccs_distribution_roulette_soa_samples,_ccs_dichotomic_search
void
h_rou_sample(void)
{
	ccs_distribution_t d = NULL;
	ccs_numeric_t      a[3], b[6], *soa[1];
	mkrng();
	/* any areas create may leave (unit rou_create) */
	static struct _ccs_distribution_s        S;
	static _ccs_distribution_roulette_data_t RD;
	static double                            A[5];
	static ccs_numeric_type_t                T[1] = {CCS_NUMERIC_TYPE_INT};
	_ccs_distribution_roulette_data_t       *r = &RD;
	d = &S;
	_ccs_object_init(&S.obj, CCS_OBJECT_TYPE_DISTRIBUTION, (_ccs_object_ops_t *)&_ccs_distribution_roulette_ops);
	S.data = (_ccs_distribution_data_t *)&RD;
	RD.common_data.type = CCS_DISTRIBUTION_TYPE_ROULETTE, RD.common_data.dimension = 1, RD.common_data.data_types = T;
	RD.num_areas = NA, RD.areas = A;
	A[0] = 0.0;
	for (int k = 1; k < NA; k++) {
		A[k] = nd_f64();
		v_assume(A[k - 1] <= A[k] && A[k] <= 1.0);
	}
	A[NA] = 1.0;
	v_draws();
	for (int k = 0; k < 3; k++)
		a[k].i = 77;
	for (int k = 0; k < 6; k++)
		b[k].i = 77;
	v_check(ccs_distribution_samples(d, RNG, 2, a) == CCS_RESULT_SUCCESS, "sampled");
	for (int k = 0; k < 2; k++) {
		v_check(a[k].i >= 0 && a[k].i < NA, "sample is the index of an area");
		int64_t j = a[k].i;
		v_check(r->areas[j] <= DRD[k] && DRD[k] < r->areas[j + 1], "the area drawn contains the draw");
	}
	v_check(a[2].i == 77, "nothing written past the samples");
	v_rewind();
	size_t form = nd_upto(4), st = 1;
	if (form == 0) {
		v_check(ccs_distribution_sample(d, RNG, b) == CCS_RESULT_SUCCESS && ccs_distribution_sample(d, RNG, b + 1) == CCS_RESULT_SUCCESS, "sampled");
	} else if (form == 1) {
		soa[0] = b;
		v_check(ccs_distribution_soa_samples(d, RNG, 2, soa) == CCS_RESULT_SUCCESS, "sampled");
	} else {
		st = form - 1;
		v_check(ccs_distribution_strided_samples(d, RNG, 2, st, b) == CCS_RESULT_SUCCESS, "sampled");
	}
	for (size_t k = 0; k < 6; k++)
		v_check(k == 0 ? b[k].i == a[0].i : k == st ? b[k].i == a[1].i : b[k].i == 77, "every form of request writes the same values where asked and nothing else");
	soa[0] = NULL;
	v_check(ccs_distribution_soa_samples(d, RNG, 2, soa) == CCS_RESULT_SUCCESS, "dimension not asked for");
	V_REACH("sampled");
	if (a[0].i == 0)
		V_COVER("the first area can be drawn");
	if (a[0].i == NA - 1)
		V_COVER("the last area can be drawn");
}
