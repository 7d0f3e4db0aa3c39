/* Wire format of distributions: src/distribution_*.c (writing) and
 * src/distribution_deserialize.h (reading), over the primitives by contract. */
//@property C04
//@assume the wire primitives keep the contract of include/vtape.h (proved by units of C03 and C05); the constructors of distributions keep theirs (C09, C10): here they record the arguments given
#define NLOG 28
#define NTAPE 64
#include "vcommon.h"
#include "vobj.h"
#include "vtape.h"
#include "vspec.h"
struct blk_p2 { void *p[2]; };
struct blk_f2 { double f[2]; };
struct blk_f1 { double f[1]; };
#define V_ZBLK1 struct blk_p2
#define V_BLK1 struct blk_f2
#define V_BLK2 struct blk_f1
#include "valloc_fwd.h"
#include "distribution_uniform.c"
#include "distribution_normal.c"
#include "distribution_roulette.c"
#include "distribution_mixture.c"
#include "distribution_multivariate.c"
#include "valloc.h"
#define NNEWD 4
static struct _ccs_distribution_s NEWD[NNEWD];
static int                        NC;
static struct { ccs_distribution_type_t type; ccs_numeric_type_t dt; ccs_scale_type_t st; ccs_numeric_t lo, up, q; double mu, sigma; size_t n; double w[2]; ccs_distribution_t d[2]; } CR[NNEWD];
static ccs_result_t
created(ccs_distribution_type_t t, ccs_distribution_t *r)
{
	v_assume(NC < NNEWD);
	if (v_ctor_fails())
		return CCS_RESULT_ERROR_OUT_OF_MEMORY;
	CR[NC].type             = t;
	NEWD[NC].obj.type       = CCS_OBJECT_TYPE_DISTRIBUTION;
	NEWD[NC].obj.refcount   = 1;
	NEWD[NC].data           = (_ccs_distribution_data_t *)&CR[NC];
	*r                      = &NEWD[NC++];
	return CCS_RESULT_SUCCESS;
}
static ccs_result_t
v_cuni(ccs_numeric_type_t t, ccs_numeric_t lo, ccs_numeric_t up, ccs_scale_type_t s, ccs_numeric_t q, ccs_distribution_t *r)
{
	v_assume(NC < NNEWD);
	CR[NC].dt = t, CR[NC].lo = lo, CR[NC].up = up, CR[NC].st = s, CR[NC].q = q;
	return created(CCS_DISTRIBUTION_TYPE_UNIFORM, r);
}
static ccs_result_t
v_cnor(ccs_numeric_type_t t, double mu, double sigma, ccs_scale_type_t s, ccs_numeric_t q, ccs_distribution_t *r)
{
	v_assume(NC < NNEWD);
	CR[NC].dt = t, CR[NC].mu = mu, CR[NC].sigma = sigma, CR[NC].st = s, CR[NC].q = q;
	return created(CCS_DISTRIBUTION_TYPE_NORMAL, r);
}
static ccs_result_t
v_crou(size_t n, double *a, ccs_distribution_t *r)
{
	v_assume(NC < NNEWD);
	CR[NC].n = n;
	for (size_t k = 0; k < 2; k++)
		if (k < n)
			CR[NC].w[k] = a[k];
	return created(CCS_DISTRIBUTION_TYPE_ROULETTE, r);
}
static ccs_result_t
ccomp(ccs_distribution_type_t t, size_t n, ccs_distribution_t *d, double *w, ccs_distribution_t *r)
{
	v_assume(NC < NNEWD);
	CR[NC].n = n;
	for (size_t k = 0; k < 2; k++)
		if (k < n) {
			v_check(d[k] != NULL && REFS(d[k]) == 1, "components are alive when given");
			CR[NC].d[k] = d[k];
			CR[NC].w[k] = w ? w[k] : 0;
		}
	ccs_result_t x = created(t, r);
	if (x == CCS_RESULT_SUCCESS)
		for (size_t k = 0; k < 2; k++)
			if (k < n)
				REFS(d[k])++;
	return x;
}
static ccs_result_t v_cmix(size_t n, ccs_distribution_t *d, double *w, ccs_distribution_t *r) { return ccomp(CCS_DISTRIBUTION_TYPE_MIXTURE, n, d, w, r); }
static ccs_result_t v_cmul(size_t n, ccs_distribution_t *d, ccs_distribution_t *r) { return ccomp(CCS_DISTRIBUTION_TYPE_MULTIVARIATE, n, d, NULL, r); }
#define ccs_create_uniform_distribution v_cuni
#define ccs_create_normal_distribution v_cnor
#define ccs_create_roulette_distribution v_crou
#define ccs_create_mixture_distribution v_cmix
#define ccs_create_multivariate_distribution v_cmul
#include "distribution_deserialize.h"
static struct _ccs_distribution_s D, S[2];
static ccs_numeric_type_t         TY1[1], TY2[1], TY3[1];
static int
same_num(int fl, ccs_numeric_t a, ccs_numeric_t b)
{
	return fl ? a.f == b.f : a.i == b.i;
}
static ccs_numeric_t
num(int fl)
{
	ccs_numeric_t x;
	x.i = nd_i64();
	if (fl)
		v_assume(!v_isnan(x.f));
	return x;
}
static void
start(struct _ccs_distribution_s *d, void *data, void *ops)
{
	_ccs_object_init(&d->obj, CCS_OBJECT_TYPE_DISTRIBUTION, (_ccs_object_ops_t *)ops);
	d->data = (_ccs_distribution_data_t *)data;
}
static void
finish(ccs_distribution_t o, int n)
{
	v_check(NC == n && o == &NEWD[n - 1] && REFS(o) == 1, "the object read is returned");
	v_check(HMN == 1 && HMK[0] == (ccs_object_t)&D && HMV[0] == (ccs_object_t)o, "its handle leads to the object read");
}
//@unit ser_uni cases=4 prop=C04 unwind=30 funcs=_ccs_distribution_uniform_serialize_size,_ccs_distribution_uniform_serialize,_ccs_serialize_bin_ccs_distribution_uniform_data,_ccs_serialize_bin_size_ccs_distribution_uniform_data,_ccs_distribution_deserialize,_ccs_deserialize_bin_distribution,_ccs_deserialize_bin_distribution_uniform flags="--memory-leak-check"
void
h_ser_uni(void)
{
	static _ccs_distribution_uniform_data_t U;
	ccs_distribution_t                      o  = NULL;
	int                                     fl = V_CASE & 1;
	start(&D, &U, &_ccs_distribution_uniform_ops);
	U.common_data.type = CCS_DISTRIBUTION_TYPE_UNIFORM, U.common_data.dimension = 1, U.common_data.data_types = TY1;
	TY1[0] = fl ? CCS_NUMERIC_TYPE_FLOAT : CCS_NUMERIC_TYPE_INT;
	U.scale_type = V_CASE & 2 ? CCS_SCALE_TYPE_LOGARITHMIC : CCS_SCALE_TYPE_LINEAR;
	U.lower = num(fl), U.upper = num(fl), U.quantization = num(fl);
	V_WRITE(D.obj.ops->serialize_size, D.obj.ops->serialize, &D);
	V_READ(_ccs_distribution_deserialize, ccs_distribution_t, &o);
	finish(o, 1);
	v_check(CR[0].type == CCS_DISTRIBUTION_TYPE_UNIFORM && CR[0].dt == TY1[0] && CR[0].st == U.scale_type, "same kind, type and scale");
	v_check(same_num(fl, CR[0].lo, U.lower) && same_num(fl, CR[0].up, U.upper) && same_num(fl, CR[0].q, U.quantization), "same bounds and quantization");
	V_SHORT(D.obj.ops->serialize, &D);
	V_REACH("end");
}
//@unit ser_nor cases=4 prop=C04 unwind=30 funcs=_ccs_distribution_normal_serialize_size,_ccs_distribution_normal_serialize,_ccs_serialize_bin_ccs_distribution_normal_data,_ccs_serialize_bin_size_ccs_distribution_normal_data,_ccs_distribution_deserialize,_ccs_deserialize_bin_distribution,_ccs_deserialize_bin_distribution_normal flags="--memory-leak-check"
void
h_ser_nor(void)
{
	static _ccs_distribution_normal_data_t U;
	ccs_distribution_t                     o  = NULL;
	int                                    fl = V_CASE & 1;
	start(&D, &U, &_ccs_distribution_normal_ops);
	U.common_data.type = CCS_DISTRIBUTION_TYPE_NORMAL, U.common_data.dimension = 1, U.common_data.data_types = TY1;
	TY1[0] = fl ? CCS_NUMERIC_TYPE_FLOAT : CCS_NUMERIC_TYPE_INT;
	U.scale_type = V_CASE & 2 ? CCS_SCALE_TYPE_LOGARITHMIC : CCS_SCALE_TYPE_LINEAR;
	U.mu = nd_f64(), U.sigma = nd_f64(), U.quantization = num(fl);
	v_assume(!v_isnan(U.mu) && !v_isnan(U.sigma));
	V_WRITE(D.obj.ops->serialize_size, D.obj.ops->serialize, &D);
	V_READ(_ccs_distribution_deserialize, ccs_distribution_t, &o);
	finish(o, 1);
	v_check(CR[0].type == CCS_DISTRIBUTION_TYPE_NORMAL && CR[0].dt == TY1[0] && CR[0].st == U.scale_type, "same kind, type and scale");
	v_check(CR[0].mu == U.mu && CR[0].sigma == U.sigma && same_num(fl, CR[0].q, U.quantization), "same mean, deviation and quantization");
	V_SHORT(D.obj.ops->serialize, &D);
	V_REACH("end");
}
//@unit ser_rou cases=2 prop=C04 unwind=30 bounded="one or two areas" funcs=_ccs_distribution_roulette_serialize_size,_ccs_distribution_roulette_serialize,_ccs_serialize_bin_ccs_distribution_roulette_data,_ccs_serialize_bin_size_ccs_distribution_roulette_data,_ccs_distribution_deserialize,_ccs_deserialize_bin_distribution,_ccs_deserialize_bin_distribution_roulette flags="--memory-leak-check"
void
h_ser_rou(void)
{
	static _ccs_distribution_roulette_data_t U;
	static double                            A[3];
	ccs_distribution_t                       o = NULL;
	start(&D, &U, &_ccs_distribution_roulette_ops);
	U.common_data.type = CCS_DISTRIBUTION_TYPE_ROULETTE, U.common_data.dimension = 1, U.common_data.data_types = TY1;
	TY1[0] = CCS_NUMERIC_TYPE_INT;
	U.num_areas = V_CASE + 1, U.areas = A;
	A[0] = 0, A[1] = V_CASE ? 0.25 : 1.0, A[2] = 1.0;
	V_WRITE(D.obj.ops->serialize_size, D.obj.ops->serialize, &D);
	V_READ(_ccs_distribution_deserialize, ccs_distribution_t, &o);
	finish(o, 1);
	v_check(CR[0].type == CCS_DISTRIBUTION_TYPE_ROULETTE && CR[0].n == V_CASE + 1, "same kind and number of areas");
	v_check(CR[0].w[0] == A[1] && (!V_CASE || CR[0].w[1] == A[2] - A[1]), "same areas in the same order");
	V_SHORT(D.obj.ops->serialize, &D);
	V_REACH("end");
}
//@unit ser_comp cases=2 prop=C04 unwind=30 bounded="two components" funcs=_ccs_distribution_mixture_serialize_size,_ccs_distribution_mixture_serialize,_ccs_distribution_multivariate_serialize_size,_ccs_distribution_multivariate_serialize,_ccs_distribution_deserialize,_ccs_deserialize_bin_distribution_mixture,_ccs_deserialize_bin_distribution_multivariate,_ccs_deserialize_bin_ccs_distribution_mixture_data,_ccs_deserialize_bin_ccs_distribution_multivariate_data flags="--memory-leak-check"
void
h_ser_comp(void)
{
	static _ccs_distribution_uniform_data_t      U[2];
	static _ccs_distribution_mixture_data_t      X;
	static _ccs_distribution_multivariate_data_t V;
	static ccs_distribution_t                    DS[2] = {&S[0], &S[1]};
	static double                                W[3]  = {0, 0.25, 1.0};
	ccs_distribution_t                           o     = NULL;
	for (int k = 0; k < 2; k++) {
		start(&S[k], &U[k], &_ccs_distribution_uniform_ops);
		U[k].common_data.type = CCS_DISTRIBUTION_TYPE_UNIFORM, U[k].common_data.dimension = 1, U[k].common_data.data_types = k ? TY2 : TY1;
		U[k].scale_type = CCS_SCALE_TYPE_LINEAR;
		U[k].lower = num(0), U[k].upper = num(0), U[k].quantization = num(0);
	}
	TY1[0] = TY2[0] = CCS_NUMERIC_TYPE_INT;
	if (V_CASE) {
		start(&D, &V, &_ccs_distribution_multivariate_ops);
		V.common_data.type = CCS_DISTRIBUTION_TYPE_MULTIVARIATE, V.num_distributions = 2, V.distributions = DS, V.common_data.dimension = 2;
	} else {
		start(&D, &X, &_ccs_distribution_mixture_ops);
		X.common_data.type = CCS_DISTRIBUTION_TYPE_MIXTURE, X.num_distributions = 2, X.distributions = DS, X.weights = W, X.common_data.dimension = 1;
	}
	V_WRITE(D.obj.ops->serialize_size, D.obj.ops->serialize, &D);
	V_READ(_ccs_distribution_deserialize, ccs_distribution_t, &o);
	finish(o, 3);
	v_check(CR[2].type == (V_CASE ? CCS_DISTRIBUTION_TYPE_MULTIVARIATE : CCS_DISTRIBUTION_TYPE_MIXTURE) && CR[2].n == 2, "same kind and number of components");
	for (int k = 0; k < 2; k++) {
		v_check(CR[2].d[k] == &NEWD[k] && REFS(&NEWD[k]) == 1, "same components, held by the distribution alone");
		v_check(CR[k].lo.i == U[k].lower.i && CR[k].up.i == U[k].upper.i && CR[k].q.i == U[k].quantization.i, "components in the same order");
		if (!V_CASE)
			v_check(CR[2].w[k] == W[k + 1] - W[k], "same weights");
	}
	V_SHORT(D.obj.ops->serialize, &D);
	V_REACH("end");
}
/* kind, number of elements, token refused.  Components are uniform (kind at
 * tokens FK): a mixture's are at 4 and 15, with their weights before */
#define N (INT64_C(1) << 60)
static const struct vcase DC[32] = {
	{0, 0, 0, -1, 0, 1}, {0, 0, 1, -1, 0, 1}, {0, 0, 2, -1, 0, 1}, {0, 0, 4, -1, 0, 1}, {0, 0, 6, -1, 0, 1}, {0, 0, 8, -1, 0, 1}, {0, 0, -1, 0, 0, 1}, {0, 0, -1, -1, 0, 0},
	{0, 0, -1, -1, 0, 1}, {0, 0, -1, -1, 0, 2}, {0, 0, -1, -1, 0, 5}, {1, 0, 5, -1, 0, 1}, {1, 0, 7, -1, 0, 1}, {1, 0, -1, -1, 0, 1}, {2, 1, 4, -1, 0, 1}, {2, 2, 5, -1, 0, 1},
	{2, 2, -1, -1, 0, 1}, {2, N, -1, -1, 0, 1}, {2, 2, -1, 0, 0, 1}, {2, 2, -1, -1, 1, 1}, {3, 2, -1, -1, 0, 1}, {3, 2, 14, -1, 0, 1}, {3, 2, -1, 1, 0, 1}, {3, 2, -1, 2, 0, 1},
	{3, 2, -1, -1, 1, 1}, {3, 2, -1, -1, 2, 1}, {3, N, -1, -1, 0, 1}, {4, 2, -1, -1, 0, 1}, {4, 2, 18, -1, 0, 1}, {4, 2, -1, 2, 0, 1}, {4, N, -1, -1, 0, 1}, {5, 0, -1, -1, 0, 1}};
static const uint64_t DK[6] = {CCS_DISTRIBUTION_TYPE_UNIFORM, CCS_DISTRIBUTION_TYPE_NORMAL, CCS_DISTRIBUTION_TYPE_ROULETTE, CCS_DISTRIBUTION_TYPE_MIXTURE, CCS_DISTRIBUTION_TYPE_MULTIVARIATE, 77};
//@unit des_dist cases=32 prop=C05 unwind=30 bounded="buffers of thirty tokens; at most two elements" funcs=_ccs_distribution_deserialize,_ccs_deserialize_bin_distribution,_ccs_deserialize_bin_distribution_uniform,_ccs_deserialize_bin_distribution_normal,_ccs_deserialize_bin_distribution_roulette,_ccs_deserialize_bin_distribution_mixture,_ccs_deserialize_bin_distribution_multivariate flags="--memory-leak-check"
void
h_des_dist(void)
{
	ccs_distribution_t o  = NULL;
	size_t             bs = 30;
	const char        *b  = VBUF;
	v_start(CCS_OBJECT_TYPE_DISTRIBUTION, DC[V_CASE]);
	v_fix(2, DK[DC[V_CASE].k]);
	if (DC[V_CASE].k == 3) {
		v_fix(5, CCS_OBJECT_TYPE_DISTRIBUTION), v_fix(7, CCS_DISTRIBUTION_TYPE_UNIFORM), v_fix(8, CCS_NUMERIC_TYPE_INT);
		v_fix(15, CCS_OBJECT_TYPE_DISTRIBUTION), v_fix(17, CCS_DISTRIBUTION_TYPE_UNIFORM), v_fix(18, CCS_NUMERIC_TYPE_INT);
	} else if (DC[V_CASE].k == 4) {
		v_fix(4, CCS_OBJECT_TYPE_DISTRIBUTION), v_fix(6, CCS_DISTRIBUTION_TYPE_UNIFORM), v_fix(7, CCS_NUMERIC_TYPE_INT);
		v_fix(13, CCS_OBJECT_TYPE_DISTRIBUTION), v_fix(15, CCS_DISTRIBUTION_TYPE_UNIFORM), v_fix(16, CCS_NUMERIC_TYPE_INT);
	}
	V_OOMAT = DC[V_CASE].oom;
	ccs_result_t x = _ccs_distribution_deserialize(&o, CCS_SERIALIZE_FORMAT_BINARY, 0, &bs, &b, &DOPTS);
	v_check(bs <= 30, "no more read than there is");
	int ok = (DC[V_CASE].f < 0 && !V_CTOR_HIT && !V_HIT && DC[V_CASE].hm <= 1 && DC[V_CASE].n != N && DC[V_CASE].k != 5);
	v_check((x == CCS_RESULT_SUCCESS) == ok || DC[V_CASE].hm == 5, "a refusal is reported");
	if (x == CCS_RESULT_SUCCESS) {
		v_check(NC > 0 && o == &NEWD[NC - 1] && REFS(o) == 1 && UDOBJ == (ccs_object_t)o, "the object read is returned");
		for (int k = 0; k < NNEWD; k++)
			if (k < NC - 1)
				v_check(REFS(&NEWD[k]) == 1, "components are held by the distribution alone");
	} else
		for (int k = 0; k < NNEWD; k++)
			if (k < NC)
				v_check(REFS(&NEWD[k]) == 0, "nothing is left behind by a refused stream");
	V_REACH("end");
}
