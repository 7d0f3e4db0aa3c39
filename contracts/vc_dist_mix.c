/* Contracts for src/distribution_mixture.c over components by contract. */
//@property C10
//@assume components keep the contract of comps.inc (what units of C09 prove of the elementary distributions)
//@assume gsl_rng_uniform returns a number of [0, 1) (GSL documentation)
#include "vcommon.h"
#include <gsl/gsl_rng.h>
#include "vspec.h"
#include "vobj.h"
#include "vmath.h"
#include "distribution_internal.h"
#include "valloc_fwd.h"
#include "dists.inc"
#include "interval.c"
#include "distribution.c"
#ifdef V_CBMC
/* the search by contract (proved by units rou_sample and dichotomic): the index
 * of the share that contains the target; which one is fixed by the case */
static size_t         SEARCH[2];
static int            NSEARCH;
static inline ccs_int_t
v_search(ccs_int_t size, ccs_float_t *values, ccs_float_t target)
{
	v_check(size > 0 && values != NULL, "search over a list");
	v_assume(NSEARCH < 2);
	size_t k = SEARCH[NSEARCH++];
	v_assume(k < (size_t)size && values[k] <= target && target < values[k + 1]);
	return (ccs_int_t)k;
}
#define _ccs_dichotomic_search v_search
#endif
#include "distribution_mixture.c"
#pragma pack(push, 1)
#define BLK(N, D) struct blk_##N##_##D { struct _ccs_distribution_s s; _ccs_distribution_mixture_data_t d; ccs_distribution_t c[N]; ccs_interval_t b[D]; ccs_float_t w[N + 1]; ccs_numeric_type_t t[D]; }
BLK(1, 1);
BLK(1, 2);
BLK(2, 1);
BLK(2, 2);
BLK(3, 2);
struct blk_t2 { ccs_interval_t b[2]; ccs_numeric_type_t t[2]; };
#pragma pack(pop)
#define V_BLK1 struct blk_1_1
#define V_BLK2 struct blk_1_2
#define V_BLK3 struct blk_2_1
#define V_BLK4 struct blk_2_2
#define V_BLK5 struct blk_3_2
#define V_BLK6 struct blk_t2
#include "valloc.h"
#include "comps.inc"
#define LAY (V_CASE % 5)
static const size_t SH[5][2] = {{1, 1}, {1, 2}, {2, 1}, {2, 2}, {3, 2}};
#define N  (SH[LAY][0])
#define ND (SH[LAY][1])
static ccs_distribution_t CS[NC];
static double             W[NC];
static const double       TW[5] = {0.0, 1.0, 3.0, 0.1, -1.0};
static void
comps(void)
{
	mkrng();
	for (int k = 0; k < NC; k++) {
		comp(k, ND);
		CS[k] = &C[k];
	}
}
/* integer intervals, or floating point ones over a small table */
static void
ivs(void)
{
	for (int k = 0; k < NC; k++)
		for (int j = 0; j < 2; j++) {
			CB[k][j].type = CT[k][j];
			if (CT[k][j] == CCS_NUMERIC_TYPE_FLOAT)
				CB[k][j].lower.f = TW[nd_upto(4)], CB[k][j].upper.f = TW[nd_upto(4)];
		}
}
static int
nonempty(const ccs_interval_t *i)
{
	if (i->type == CCS_NUMERIC_TYPE_INT)
		return i->lower.i < i->upper.i || (i->lower.i == i->upper.i && i->lower_included && i->upper_included);
	return i->lower.f < i->upper.f || (i->lower.f == i->upper.f && i->lower_included && i->upper_included);
}
//@unit mix_create cases=20 prop=C10,C12,C14 unwind=6 bounded="up to three components of dimension one or two, weights of a table of five" funcs=ccs_create_mixture_distribution,_ccs_distribution_mixture_get_bounds,ccs_mixture_distribution_get_num_distributions,ccs_mixture_distribution_get_distributions,ccs_mixture_distribution_get_weights,_ccs_distribution_mixture_del flags="--memory-leak-check"
void
h_mix_create(void)
{
	ccs_distribution_t d = NULL;
	double             sum = 0.0;
	int                neg = 0, bad = V_CASE / 5, types = 1;
	comps();
	ivs();
	for (size_t k = 0; k < N; k++) {
		W[k] = TW[nd_upto(4)];
		neg |= W[k] < 0.0;
		sum += W[k];
		for (size_t j = 0; j < ND; j++) {
			types &= CT[k][j] == CT[0][j];
			v_assume(nonempty(&CB[k][j]));
		}
	}
	if (bad == 1)
		C[N - 1].obj.type = CCS_OBJECT_TYPE_RNG;
	else if (bad == 2)
		CS[N - 1] = NULL;
	else if (bad == 3 && N > 1)
		CD[N - 1].common.dimension = 3 - ND;
	V_OOM = nd_bool();
	ccs_result_t x = ccs_create_mixture_distribution(N, CS, W, &d);
	int          fine = !(bad == 1 || bad == 2 || bad == 3 && N > 1) && types && !neg && sum > 0.0;
	if (x != CCS_RESULT_SUCCESS) {
		v_check((!fine || V_OOM) && d == NULL, "valid components and weights accepted");
		for (size_t k = 0; k < NC; k++)
			v_check(REFS(&C[k]) == 1, "references returned");
		V_REACH("end");
		return;
	}
	v_check(fine, "mismatched components and invalid weights refused");
	if (!fine)
		return;
	size_t             n = 0;
	ccs_interval_t     b[2];
	ccs_numeric_type_t t[2];
	ccs_distribution_t o[4];
	double             w[4] = {77, 77, 77, 77};
	ccs_distribution_type_t ty;
	v_check(ccs_distribution_get_type(d, &ty) == CCS_RESULT_SUCCESS && ty == CCS_DISTRIBUTION_TYPE_MIXTURE, "type");
	v_check(ccs_distribution_get_dimension(d, &n) == CCS_RESULT_SUCCESS && n == ND, "dimension is that of the components");
	v_check(ccs_distribution_get_bounds(d, b) == CCS_RESULT_SUCCESS && ccs_distribution_get_data_types(d, t) == CCS_RESULT_SUCCESS, "bounds and types given");
	int64_t pi = nd_i64();
	double  pf = TW[nd_upto(4)];
	for (size_t j = 0; j < ND; j++) {
		v_check(t[j] == CT[0][j] && b[j].type == CT[0][j], "types of the components");
		for (size_t k = 0; k < N; k++)
			v_check(CT[0][j] == CCS_NUMERIC_TYPE_INT ? IMPLIES(iv_in_i(&CB[k][j], pi), iv_in_i(&b[j], pi)) : IMPLIES(iv_in_f(&CB[k][j], pf), iv_in_f(&b[j], pf)), "bounds contain those of every component");
	}
	_ccs_distribution_mixture_data_t *m = (_ccs_distribution_mixture_data_t *)d->data;
	v_check(m->weights[0] == 0.0 && m->weights[N] == 1.0, "weights cover [0, 1]");
	for (size_t k = 0; k < N; k++) {
		v_check(m->weights[k] <= m->weights[k + 1], "weights are ordered");
		v_check(k == N - 1 || W[k] != 0.0 || m->weights[k] == m->weights[k + 1], "no share for a null weight");
	}
	v_check(ccs_mixture_distribution_get_num_distributions(d, &n) == CCS_RESULT_SUCCESS && n == N, "number of components");
	size_t q    = nd_upto(4);
	int    want = nd_bool();
	for (int k = 0; k < 4; k++)
		o[k] = (ccs_distribution_t)&RNGS;
	x = ccs_mixture_distribution_get_distributions(d, q, q ? o : NULL, want ? &n : NULL);
	v_check(IFF(x == CCS_RESULT_SUCCESS, q == 0 ? want : q >= N), "components: array large enough or count asked");
	for (size_t k = 0; k < 4; k++)
		v_check(o[k] == (x == CCS_RESULT_SUCCESS && k < q ? (k < N ? CS[k < 3 ? k : 0] : NULL) : (ccs_distribution_t)&RNGS), "components as given, then NULL");
	x = ccs_mixture_distribution_get_weights(d, q, q ? w : NULL, want ? &n : NULL);
	v_check(IFF(x == CCS_RESULT_SUCCESS, q == 0 ? want : q >= N), "weights: array large enough or count asked");
	for (size_t k = 0; k < 4; k++)
		v_check(w[k] == (x == CCS_RESULT_SUCCESS && k < q ? (k < N ? m->weights[k < 3 ? k + 1 : 0] - m->weights[k < 3 ? k : 0] : 0.0) : 77), "weights normalized, then zero");
	for (size_t k = 0; k < NC; k++)
		v_check(REFS(&C[k]) == (k < N ? 2 : 1), "one reference on each component");
	v_check(ccs_mixture_distribution_get_num_distributions(d, NULL) < 0 && ccs_mixture_distribution_get_distributions(d, 1, NULL, &n) < 0 && ccs_mixture_distribution_get_weights(d, 1, NULL, &n) < 0 && ccs_create_mixture_distribution(0, NULL, NULL, &d) < 0 && ccs_create_mixture_distribution(1, NULL, W, &d) < 0 && ccs_create_mixture_distribution(1, CS, NULL, &d) < 0 && ccs_create_mixture_distribution(N, CS, W, NULL) < 0 && ccs_mixture_distribution_get_num_distributions(&C[0], &n) < 0 && ccs_mixture_distribution_get_weights(&C[0], 4, w, &n) < 0, "bad arguments refused");
	v_check(_ccs_distribution_mixture_ops.obj_ops.del((ccs_object_t)d) == CCS_RESULT_SUCCESS, "deleted");
	free(d);
	for (size_t k = 0; k < NC; k++)
		v_check(REFS(&C[k]) == 1, "references returned");
	V_REACH("end");
}
//@unit mix_sample cases=45 prop=C10 unwind=8 bounded="up to three components of dimension one or two, requests of two values, drawn from consecutive components" funcs=_ccs_distribution_mixture_samples,_ccs_distribution_mixture_strided_samples,_ccs_distribution_mixture_soa_samples
void
h_mix_sample(void)
{
	/* any mixture create may leave (unit mix_create) */
	static struct _ccs_distribution_s       S;
	static _ccs_distribution_mixture_data_t MD;
	static double                           A[4];
	ccs_distribution_t                      d = &S;
	ccs_numeric_t                           v[7], w[2][3], *soa[2];
	comps();
	_ccs_object_init(&S.obj, CCS_OBJECT_TYPE_DISTRIBUTION, (_ccs_object_ops_t *)&_ccs_distribution_mixture_ops);
	S.data = (_ccs_distribution_data_t *)&MD;
	MD.common_data.type = CCS_DISTRIBUTION_TYPE_MIXTURE, MD.common_data.dimension = ND, MD.common_data.data_types = CT[0];
	MD.num_distributions = N, MD.distributions = CS, MD.weights = A;
	A[0] = 0.0;
	for (size_t k = 1; k < N; k++) {
		A[k] = nd_f64();
		v_assume(A[k - 1] <= A[k] && A[k] <= 1.0);
	}
	A[N] = 1.0;
	v_draws();
	for (int k = 0; k < 7; k++)
		v[k].i = 77;
	for (int j = 0; j < 2; j++)
		for (int k = 0; k < 3; k++)
			w[j][k].i = 77;
	size_t form = V_CASE / 5 % 3, st = ND;
	ccs_result_t x;
#ifdef V_CBMC
	SEARCH[0] = V_CASE / 15 % N, SEARCH[1] = (V_CASE / 15 + 1) % N;
#endif
	if (form == 0)
		x = ccs_distribution_samples(d, RNG, 2, v);
	else if (form == 1) {
		st = 3;
		x  = ccs_distribution_strided_samples(d, RNG, 2, st, v);
	} else {
		for (int j = 0; j < 2; j++)
			soa[j] = nd_bool() ? w[j] : NULL;
		x = ccs_distribution_soa_samples(d, RNG, 2, soa);
		if (!soa[0] && (ND == 1 || !soa[1])) {
			v_check(x == CCS_RESULT_SUCCESS, "no dimension asked for");
			return;
		}
	}
	v_check(x == CCS_RESULT_SUCCESS, "sampled");
	for (size_t i = 0; i < 2; i++) {
		/* the component whose share contains the draw */
		int c = -1;
		for (size_t k = 0; k < N; k++)
			if (A[k] <= DRD[i] && DRD[i] < A[k + 1])
				c = (int)k;
		v_check(c >= 0, "shares cover the draw");
		if (form < 2)
			for (size_t j = 0; j < 3; j++) {
				if (i * st + j < (i ? 7 : st))
					v_check(v[i * st + j].i == (j < ND ? TAG(c, 0, j) : 77), "the value is that of the component drawn, in its place");
			}
		else
			for (size_t j = 0; j < 2; j++)
				v_check(w[j][i].i == (j < ND && soa[j] ? TAG(c, 0, j) : 77), "the value is that of the component drawn, in its place");
	}
	for (size_t k = 2 * st; form < 2 && k < 7; k++)
		v_check(v[k].i == 77, "nothing written past the samples");
	v_check(w[0][2].i == 77 && w[1][2].i == 77, "nothing written past the samples");
	v_check(CCALLS[0] + CCALLS[1] + CCALLS[2] == 2, "one component drawn per value");
	V_REACH("sampled");
}
