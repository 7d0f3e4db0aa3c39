/* Contracts for src/distribution_multivariate.c over components by contract. */
//@property C10
//@assume components keep the contract of comps.inc (what units of C09 prove of the elementary distributions)
#include "vcommon.h"
#include <gsl/gsl_rng.h>
#include "vspec.h"
#include "vobj.h"
#include "vmath.h"
#include "distribution_internal.h"
#include "valloc_fwd.h"
#include "dists.inc"
#include "distribution.c"
#include "distribution_multivariate.c"
#pragma pack(push, 1)
#define BLK(N, D) struct blk_##N##_##D { struct _ccs_distribution_s s; _ccs_distribution_multivariate_data_t d; ccs_distribution_t c[N]; size_t n[N]; ccs_interval_t b[D]; ccs_numeric_type_t t[D]; }
BLK(1, 1);
BLK(1, 2);
BLK(2, 3);
BLK(3, 4);
#pragma pack(pop)
#define V_BLK1 struct blk_1_1
#define V_BLK2 struct blk_1_2
#define V_BLK3 struct blk_2_3
#define V_BLK4 struct blk_3_4
#include "valloc.h"
#include "comps.inc"
/* (1) (2) (1,2) (2,1) (1,1,2) (1,2,1) */
static const size_t SH[6][4] = {{1, 1, 0, 0}, {1, 2, 0, 0}, {2, 1, 2, 0}, {2, 2, 1, 0}, {3, 1, 1, 2}, {3, 1, 2, 1}};
static const int    OWN[6][4] = {{0}, {0, 0}, {0, 1, 1}, {0, 0, 1}, {0, 1, 2, 2}, {0, 1, 1, 2}};
static const size_t SUB[6][4] = {{0}, {0, 1}, {0, 0, 1}, {0, 1, 0}, {0, 0, 0, 1}, {0, 0, 1, 0}};
static const size_t DIM[6] = {1, 2, 3, 3, 4, 4};
#define LAY (V_CASE % 6)
#define N  (SH[LAY][0])
#define ND (DIM[LAY])
static ccs_distribution_t CS[NC];
static void
comps(void)
{
	mkrng();
	for (int k = 0; k < NC; k++) {
		comp(k, SH[LAY][k + 1] ? SH[LAY][k + 1] : 1);
		CS[k] = &C[k];
	}
}
//@unit multi_create cases=18 prop=C10,C12,C14 unwind=6 bounded="up to three components of dimension one or two, the layouts listed in the unit" funcs=ccs_create_multivariate_distribution,_ccs_distribution_multivariate_get_bounds,ccs_multivariate_distribution_get_num_distributions,ccs_multivariate_distribution_get_distributions,_ccs_distribution_multivariate_del,ccs_distribution_get_dimension,ccs_distribution_get_data_types,ccs_distribution_get_bounds flags="--memory-leak-check"
void
h_multi_create(void)
{
	ccs_distribution_t d = NULL;
	comps();
	int bad = V_CASE / 6;
	if (bad == 1)
		C[N - 1].obj.type = CCS_OBJECT_TYPE_RNG;
	else if (bad == 2)
		CS[N - 1] = NULL;
	V_OOM = nd_bool();
	ccs_result_t x = ccs_create_multivariate_distribution(N, CS, &d);
	if (x != CCS_RESULT_SUCCESS) {
		v_check((bad || V_OOM) && d == NULL, "components accepted");
		for (size_t k = 0; k < NC; k++)
			v_check(REFS(&C[k]) == 1, "references returned");
		V_REACH("end");
		return;
	}
	v_check(!bad, "only distributions accepted");
	if (bad)
		return;
	size_t             n = 0;
	ccs_interval_t     b[5];
	ccs_numeric_type_t t[5];
	ccs_distribution_t o[4];
	ccs_distribution_type_t ty;
	v_check(ccs_distribution_get_type(d, &ty) == CCS_RESULT_SUCCESS && ty == CCS_DISTRIBUTION_TYPE_MULTIVARIATE, "type");
	v_check(ccs_distribution_get_dimension(d, &n) == CCS_RESULT_SUCCESS && n == ND, "dimension is the sum of those of the components");
	v_check(ccs_distribution_get_bounds(d, b) == CCS_RESULT_SUCCESS && ccs_distribution_get_data_types(d, t) == CCS_RESULT_SUCCESS, "bounds and types given");
	for (size_t j = 0; j < ND; j++) {
		v_check(same_iv(&b[j], &CB[OWN[LAY][j]][SUB[LAY][j]]), "bounds of the owning component");
		v_check(t[j] == CT[OWN[LAY][j]][SUB[LAY][j]], "type of the owning component");
	}
	v_check(ccs_multivariate_distribution_get_num_distributions(d, &n) == CCS_RESULT_SUCCESS && n == N, "number of components");
	size_t m    = nd_upto(4);
	int    want = nd_bool();
	for (int k = 0; k < 4; k++)
		o[k] = (ccs_distribution_t)&RNGS;
	x = ccs_multivariate_distribution_get_distributions(d, m, m ? o : NULL, want ? &n : NULL);
	v_check(IFF(x == CCS_RESULT_SUCCESS, m == 0 ? want : m >= N), "components: array large enough or count asked");
	for (size_t k = 0; k < 4; k++)
		v_check(o[k] == (x == CCS_RESULT_SUCCESS && k < m ? (k < N ? CS[k < 3 ? k : 0] : NULL) : (ccs_distribution_t)&RNGS), "components as given, then NULL");
	for (size_t k = 0; k < NC; k++)
		v_check(REFS(&C[k]) == (k < N ? 2 : 1), "one reference on each component");
	v_check(ccs_multivariate_distribution_get_num_distributions(d, NULL) < 0 && ccs_multivariate_distribution_get_distributions(d, 1, NULL, &n) < 0 && ccs_create_multivariate_distribution(0, NULL, &d) < 0 && ccs_create_multivariate_distribution(0, CS, &d) < 0 && ccs_create_multivariate_distribution(1, NULL, &d) < 0 && ccs_create_multivariate_distribution(N, CS, NULL) < 0 && ccs_multivariate_distribution_get_num_distributions(&C[0], &n) < 0, "bad arguments refused");
	v_check(_ccs_distribution_multivariate_ops.obj_ops.del((ccs_object_t)d) == CCS_RESULT_SUCCESS, "deleted");
	free(d);
	for (size_t k = 0; k < NC; k++)
		v_check(REFS(&C[k]) == 1, "references returned");
	V_REACH("end");
}
//@unit multi_sample cases=18 prop=C10 unwind=12 bounded="up to three components of dimension one or two, requests of up to two values" funcs=_ccs_distribution_multivariate_samples,_ccs_distribution_multivariate_strided_samples,_ccs_distribution_multivariate_soa_samples
void
h_multi_sample(void)
{
	ccs_distribution_t d = NULL;
	ccs_numeric_t      v[11], w[4][3], *soa[4];
	mkrng();
	for (int k = 0; k < NC; k++) {
		comp(k, SH[LAY][k + 1] ? SH[LAY][k + 1] : 1);
		CS[k] = &C[k];
	}
	ccs_result_t x = ccs_create_multivariate_distribution(N, CS, &d);
	v_assume(x == CCS_RESULT_SUCCESS);
	for (int k = 0; k < 11; k++)
		v[k].i = 77;
	for (int j = 0; j < 4; j++)
		for (int k = 0; k < 3; k++)
			w[j][k].i = 77;
	size_t form = V_CASE / 6, st = ND;
	if (form < 2) {
		if (form == 1) {
			st = ND + nd_upto(1);
			x  = ccs_distribution_strided_samples(d, RNG, 2, st, v);
			v_check(ccs_distribution_strided_samples(d, RNG, 1, ND - 1, v) < 0, "stride below the dimension refused");
		} else
			x = ccs_distribution_samples(d, RNG, 2, v);
		v_check(x == CCS_RESULT_SUCCESS, "sampled");
		for (size_t k = 0; k < 11; k++) {
			size_t i = k >= st, j = k - i * st;
			v_check(v[k].i == (k < 2 * st && j < ND ? TAG(OWN[LAY][j < 4 ? j : 0], i, SUB[LAY][j < 4 ? j : 0]) : 77), "each component writes its own dimensions and nothing else");
		}
	} else {
		for (int j = 0; j < 4; j++)
			soa[j] = nd_bool() ? w[j] : NULL;
		x = ccs_distribution_soa_samples(d, RNG, 2, soa);
		v_check(x == CCS_RESULT_SUCCESS, "sampled");
		for (size_t j = 0; j < 4; j++)
			for (size_t k = 0; k < 3; k++)
				v_check(w[j][k].i == (j < ND && soa[j] && k < 2 ? TAG(OWN[LAY][j], k, SUB[LAY][j]) : 77), "each component writes its own dimensions and nothing else");
	}
	CFAIL = 1;
	if (form < 2) {
		x = ccs_distribution_samples(d, RNG, 2, v);
		v_check(x == CCS_RESULT_SUCCESS || x == CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL, "the error of a component is reported");
	}
	V_REACH("sampled");
}
