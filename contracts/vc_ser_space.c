/* Wire format of spaces: src/configuration_space.c, src/objective_space.c,
 * src/features_space.c (writing) and the matching *_deserialize.h (reading),
 * over the primitives and the sub-objects by contract. */
//@property C04
//@assume the wire primitives keep the contract of include/vtape.h (proved by units of C03 and C05); sub-objects keep that of contracts/ser.inc (units of C04, C05 over each kind); the building operations of spaces record the arguments given
#define NLOG 24
#define NTAPE 32
#include "vcommon.h"
#include "vobj.h"
#include "vtape.h"
#include "vspec.h"
struct blk_p1 { void *p[1]; };
struct blk_p2 { void *p[2]; };
struct blk_cs { void *p[2]; size_t ci[1]; void *c[1]; void *d[2]; size_t dim[2]; size_t di[2]; void *f[1]; };
struct blk_cs1 { void *p[2]; size_t ci[1]; void *c[1]; void *d[1]; size_t dim[1]; size_t di[2]; void *f[1]; };
struct blk_ob { void *p[2]; void *e[2]; ccs_objective_type_t t[2]; };
#define V_ZBLK1 struct blk_p2
#define V_ZBLK2 struct blk_ob
#define V_BLK1 struct blk_cs
#define V_BLK2 struct blk_cs1
#define V_BLK3 struct blk_p1
#include "valloc_fwd.h"
#include "configuration_space.c"
#include "objective_space.c"
#include "features_space.c"
#include "valloc.h"
#define NSUB 8
#include "ser.inc"
SUB_DES(v_sd_par, ccs_parameter_t, CCS_OBJECT_TYPE_PARAMETER)
SUB_DES(v_sd_exp, ccs_expression_t, CCS_OBJECT_TYPE_EXPRESSION)
SUB_DES(v_sd_dis, ccs_distribution_t, CCS_OBJECT_TYPE_DISTRIBUTION)
SUB_DES(v_sd_rng, ccs_rng_t, CCS_OBJECT_TYPE_RNG)
#include "parameter_deserialize.h"
#include "expression_deserialize.h"
#include "distribution_deserialize.h"
#include "rng_deserialize.h"
#define _ccs_parameter_deserialize v_sd_par
#define _ccs_expression_deserialize v_sd_exp
#define _ccs_distribution_deserialize v_sd_dis
#define _ccs_rng_deserialize v_sd_rng
/* the space built: what it was given; holds a reference to each sub-object */
static _ccs_object_template_t NS;
static int                    NCREATE;
static size_t                 DIMS[NSUB];
static struct { char name[4]; size_t np, nc, nd, nf, no, ci[2], dim[2], di[2], ndi; void *p[2], *c[2], *d[2], *f[2], *o[2], *rng; ccs_objective_type_t ot[2]; } CR;
static ccs_result_t
created(const char *name, ccs_object_type_t t, void *r)
{
	if (v_ctor_fails())
		return CCS_RESULT_ERROR_OUT_OF_MEMORY;
	NCREATE++;
	for (int k = 0; k < 3; k++) {
		CR.name[k] = name[k];
		if (!name[k])
			break;
	}
	NS.obj.type = t, NS.obj.refcount = 1, NS.data = (void *)&CR;
	*(void **)r = &NS;
	return CCS_RESULT_SUCCESS;
}
static ccs_result_t
hold(void *s, size_t n, void **e, void **into, size_t *cnt)
{
	v_check(s == (void *)&NS && NS.obj.refcount == 1, "given to the space just made");
	if (v_ctor_fails())
		return CCS_RESULT_ERROR_INVALID_VALUE;
	for (size_t k = 0; k < 2; k++)
		if (k < n) {
			v_check(e[k] && REFS(e[k]) > 0, "sub-objects are alive when given");
			v_assume(*cnt < 2);
			into[(*cnt)++] = e[k];
			REFS(e[k])++;
		}
	return CCS_RESULT_SUCCESS;
}
static ccs_result_t v_c_cs(const char *n, ccs_configuration_space_t *r) { return created(n, CCS_OBJECT_TYPE_CONFIGURATION_SPACE, r); }
static ccs_result_t v_c_os(const char *n, ccs_objective_space_t *r) { return created(n, CCS_OBJECT_TYPE_OBJECTIVE_SPACE, r); }
static ccs_result_t v_c_fs(const char *n, ccs_features_space_t *r) { return created(n, CCS_OBJECT_TYPE_FEATURES_SPACE, r); }
static ccs_result_t
v_set_rng(ccs_configuration_space_t s, ccs_rng_t r)
{
	size_t n = 0;
	return hold(s, 1, (void **)&r, &CR.rng, &n);
}
static ccs_result_t
v_cs_pars(ccs_configuration_space_t s, size_t n, ccs_parameter_t *p, ccs_distribution_t *d)
{
	v_check(d == NULL, "distributions come later");
	return hold(s, n, (void **)p, CR.p, &CR.np);
}
static ccs_result_t v_os_pars(ccs_objective_space_t s, size_t n, ccs_parameter_t *p) { return hold(s, n, (void **)p, CR.p, &CR.np); }
static ccs_result_t v_fs_pars(ccs_features_space_t s, size_t n, ccs_parameter_t *p) { return hold(s, n, (void **)p, CR.p, &CR.np); }
static ccs_result_t
v_set_cond(ccs_configuration_space_t s, size_t i, ccs_expression_t e)
{
	v_assume(CR.nc < 2);
	CR.ci[CR.nc] = i;
	return hold(s, 1, (void **)&e, CR.c, &CR.nc);
}
static ccs_result_t
v_get_dim(ccs_distribution_t d, size_t *n)
{
	for (int k = 0; k < NSUB; k++)
		if ((void *)d == (void *)&NEW[k]) {
			*n = DIMS[k];
			return CCS_RESULT_SUCCESS;
		}
	return CCS_RESULT_ERROR_INVALID_OBJECT;
}
static ccs_result_t
v_set_dist(ccs_configuration_space_t s, ccs_distribution_t d, size_t *idx)
{
	size_t n;
	v_check(v_get_dim(d, &n) == CCS_RESULT_SUCCESS, "a distribution read");
	v_assume(CR.nd < 2);
	CR.dim[CR.nd] = n;
	for (size_t k = 0; k < 2; k++)
		if (k < n) {
			v_assume(CR.ndi < 2);
			CR.di[CR.ndi++] = idx[k];
		}
	return hold(s, 1, (void **)&d, CR.d, &CR.nd);
}
static ccs_result_t v_add_forb(ccs_configuration_space_t s, size_t n, ccs_expression_t *e) { return hold(s, n, (void **)e, CR.f, &CR.nf); }
static ccs_result_t
v_add_obj(ccs_objective_space_t s, size_t n, ccs_expression_t *e, ccs_objective_type_t *t)
{
	for (size_t k = 0; k < 2; k++)
		if (k < n)
			CR.ot[k] = t[k];
	return hold(s, n, (void **)e, CR.o, &CR.no);
}
#define ccs_create_configuration_space v_c_cs
#define ccs_create_objective_space v_c_os
#define ccs_create_features_space v_c_fs
#define ccs_configuration_space_set_rng v_set_rng
#define ccs_configuration_space_add_parameters v_cs_pars
#define ccs_objective_space_add_parameters v_os_pars
#define ccs_features_space_add_parameters v_fs_pars
#define ccs_configuration_space_set_condition v_set_cond
#define ccs_configuration_space_set_distribution v_set_dist
#define ccs_distribution_get_dimension v_get_dim
#define ccs_configuration_space_add_forbidden_clauses v_add_forb
#define ccs_objective_space_add_objectives v_add_obj
#include "configuration_space_deserialize.h"
#include "objective_space_deserialize.h"
#include "features_space_deserialize.h"
static _ccs_object_template_t S;
static char                   NM[3];
static UT_array               AP, AF;
static void
start(ccs_object_type_t t, void *data, void *ops)
{
	_ccs_object_init(&S.obj, t, (_ccs_object_ops_t *)ops);
	S.data = data;
	NM[0] = (char)nd_u64(), NM[1] = (char)nd_u64();
}
static void
ary(UT_array *a, void *d, unsigned n, size_t sz)
{
	a->d = (char *)d, a->i = a->n = n, a->icd.sz = sz;
}
static void
finish(void *o, int n)
{
	v_check(o == (void *)&NS && NCREATE == 1 && NS.obj.refcount == 1, "the space built is returned");
	v_check(CR.name[0] == NM[0] && (NM[0] == 0 || CR.name[1] == NM[1]), "same name");
	v_check(HMN == 1 && HMK[0] == (ccs_object_t)&S && HMV[0] == (ccs_object_t)&NS, "its handle leads to the space read");
	v_check(HM2.obj.refcount == 0, "the map of sub-objects is dropped");
	v_check(NNEW == n && sub_refs(1), "sub-objects are held by the space alone");
}
/* parameters record their handles where expressions look for them */
static void
maps(int p, int e)
{
	v_check(SUBMAP[p] && SUBMV[p] && SUBMAP[p] == SUBMAP[e] && SUBMAP[p] != (ccs_map_t)&HM, "expressions find the parameters of their own space");
}
//@unit ser_cspace cases=2 prop=C04 unwind=26 bounded="two parameters, one condition, one or two distributions, one forbidden clause" funcs=_ccs_configuration_space_serialize_size,_ccs_configuration_space_serialize,_ccs_serialize_bin_size_ccs_configuration_space_data,_ccs_serialize_bin_ccs_configuration_space_data,_ccs_configuration_space_deserialize,_ccs_deserialize_bin_configuration_space,_ccs_deserialize_bin_ccs_configuration_space_data flags="--memory-leak-check"
void
h_ser_cspace(void)
{
	static _ccs_configuration_space_data_t C;
	static _ccs_parameter_wrapper_cs_t     W[2];
	static _ccs_distribution_wrapper_t     DW[2];
	static ccs_expression_t                F[1];
	static size_t                          I0[2] = {1, 0}, I1[1] = {0};
	ccs_configuration_space_t              o = NULL;
	start(CCS_OBJECT_TYPE_CONFIGURATION_SPACE, &C, &_configuration_space_ops);
	sub_init(0, CCS_OBJECT_TYPE_RNG), sub_init(1, CCS_OBJECT_TYPE_PARAMETER), sub_init(2, CCS_OBJECT_TYPE_PARAMETER), sub_init(3, CCS_OBJECT_TYPE_EXPRESSION), sub_init(4, CCS_OBJECT_TYPE_DISTRIBUTION), sub_init(5, CCS_OBJECT_TYPE_EXPRESSION), sub_init(6, CCS_OBJECT_TYPE_DISTRIBUTION);
	C.name = NM, C.parameters = &AP, C.forbidden_clauses = &AF, C.rng = (ccs_rng_t)&SUB[0];
	ary(&AP, W, 2, sizeof(W[0])), ary(&AF, F, 1, sizeof(F[0]));
	W[0].parameter = (ccs_parameter_t)&SUB[1], W[1].parameter = (ccs_parameter_t)&SUB[2];
	W[V_CASE].condition = (ccs_expression_t)&SUB[3];
	F[0] = (ccs_expression_t)&SUB[5];
	DW[0].distribution = (ccs_distribution_t)&SUB[4], DW[0].parameter_indexes = I0, DW[0].dimension = DIMS[4] = V_CASE ? 1 : 2;
	DW[1].distribution = (ccs_distribution_t)&SUB[6], DW[1].parameter_indexes = I1, DW[1].dimension = DIMS[6] = 1;
	C.distribution_list = &DW[0];
	if (V_CASE)
		DW[0].next = &DW[1], DW[1].prev = &DW[0], DW[0].prev = &DW[1];
	else
		DW[0].prev = &DW[0];
	DOPTS.map_values = CCS_TRUE;
	V_WRITE(S.obj.ops->serialize_size, S.obj.ops->serialize, &S);
	V_READ(_ccs_configuration_space_deserialize, ccs_configuration_space_t, &o);
	finish(o, V_CASE ? 7 : 6);
	v_check(CR.rng == &NEW[0], "same generator");
	v_check(CR.np == 2 && CR.p[0] == &NEW[1] && CR.p[1] == &NEW[2], "same parameters in the same order");
	v_check(CR.nc == 1 && CR.ci[0] == V_CASE && CR.c[0] == &NEW[3], "same condition on the same parameter");
	v_check(CR.nd == (V_CASE ? 2 : 1) && CR.d[0] == &NEW[4] && CR.di[0] == 1 && CR.di[1] == 0 && (!V_CASE || CR.d[1] == &NEW[6]), "same distributions of the same parameters");
	v_check(CR.nf == 1 && CR.f[0] == &NEW[5], "same forbidden clauses");
	maps(1, 3), maps(2, 5);
	V_SHORT(S.obj.ops->serialize, &S);
	V_REACH("end");
}
//@unit ser_ospace prop=C04 unwind=26 bounded="two parameters, two objectives" funcs=_ccs_objective_space_serialize_size,_ccs_objective_space_serialize,_ccs_serialize_bin_size_ccs_objective_space_data,_ccs_serialize_bin_ccs_objective_space_data,_ccs_objective_space_deserialize,_ccs_deserialize_bin_objective_space,_ccs_deserialize_bin_ccs_objective_space_data flags="--memory-leak-check"
void
h_ser_ospace(void)
{
	static _ccs_objective_space_data_t C;
	static _ccs_parameter_wrapper_t    W[2];
	static _ccs_objective_t            F[2];
	ccs_objective_space_t              o = NULL;
	start(CCS_OBJECT_TYPE_OBJECTIVE_SPACE, &C, &_objective_space_ops);
	sub_init(0, CCS_OBJECT_TYPE_PARAMETER), sub_init(1, CCS_OBJECT_TYPE_PARAMETER), sub_init(2, CCS_OBJECT_TYPE_EXPRESSION), sub_init(3, CCS_OBJECT_TYPE_EXPRESSION);
	C.name = NM, C.parameters = &AP, C.objectives = &AF;
	ary(&AP, W, 2, sizeof(W[0])), ary(&AF, F, 2, sizeof(F[0]));
	W[0].parameter = (ccs_parameter_t)&SUB[0], W[1].parameter = (ccs_parameter_t)&SUB[1];
	F[0].expression = (ccs_expression_t)&SUB[2], F[1].expression = (ccs_expression_t)&SUB[3];
	F[0].type = nd_bool() ? CCS_OBJECTIVE_TYPE_MINIMIZE : CCS_OBJECTIVE_TYPE_MAXIMIZE, F[1].type = nd_bool() ? CCS_OBJECTIVE_TYPE_MINIMIZE : CCS_OBJECTIVE_TYPE_MAXIMIZE;
	DOPTS.map_values = CCS_TRUE;
	V_WRITE(S.obj.ops->serialize_size, S.obj.ops->serialize, &S);
	V_READ(_ccs_objective_space_deserialize, ccs_objective_space_t, &o);
	finish(o, 4);
	v_check(CR.np == 2 && CR.p[0] == &NEW[0] && CR.p[1] == &NEW[1], "same parameters in the same order");
	v_check(CR.no == 2 && CR.o[0] == &NEW[2] && CR.o[1] == &NEW[3] && CR.ot[0] == F[0].type && CR.ot[1] == F[1].type, "same objectives and directions in the same order");
	maps(0, 2), maps(1, 3);
	V_SHORT(S.obj.ops->serialize, &S);
	V_REACH("end");
}
//@unit ser_fspace prop=C04 unwind=26 bounded="two parameters" funcs=_ccs_features_space_serialize_size,_ccs_features_space_serialize,_ccs_serialize_bin_size_ccs_context_data,_ccs_serialize_bin_ccs_context_data,_ccs_features_space_deserialize,_ccs_deserialize_bin_features_space,_ccs_deserialize_bin_ccs_context_data flags="--memory-leak-check"
void
h_ser_fspace(void)
{
	static _ccs_features_space_data_t C;
	static _ccs_parameter_wrapper_t   W[2];
	ccs_features_space_t              o = NULL;
	start(CCS_OBJECT_TYPE_FEATURES_SPACE, &C, &_features_space_ops);
	sub_init(0, CCS_OBJECT_TYPE_PARAMETER), sub_init(1, CCS_OBJECT_TYPE_PARAMETER);
	C.name = NM, C.parameters = &AP;
	ary(&AP, W, 2, sizeof(W[0]));
	W[0].parameter = (ccs_parameter_t)&SUB[0], W[1].parameter = (ccs_parameter_t)&SUB[1];
	DOPTS.map_values = CCS_TRUE;
	V_WRITE(S.obj.ops->serialize_size, S.obj.ops->serialize, &S);
	V_READ(_ccs_features_space_deserialize, ccs_features_space_t, &o);
	finish(o, 2);
	v_check(CR.np == 2 && CR.p[0] == &NEW[0] && CR.p[1] == &NEW[1], "same parameters in the same order");
	V_SHORT(S.obj.ops->serialize, &S);
	V_REACH("end");
}
/* a configuration space of two parameters (rng at token 7, parameters at 8 and
 * 9, condition at 10 and 11, distribution at 12 with its dimension at 13 and its
 * indexes at 14 and 15, clause at 16, user data at 17); k: 0 as is, 1 to 5 a
 * count of 2^60, 6 a dimension that is not the distribution's, 7 a dimension
 * larger than the parameters, 8 not a space, 9 nothing in the space */
#define N (UINT64_C(1) << 60)
static const struct vcase CC[32] = {
	{0, 0, -1, -1, 0, 1}, {0, 0, 0, -1, 0, 1}, {0, 0, 2, -1, 0, 1}, {0, 0, 3, -1, 0, 1}, {0, 0, 6, -1, 0, 1}, {0, 0, 7, -1, 0, 1}, {0, 0, 8, -1, 0, 1}, {0, 0, 9, -1, 0, 1},
	{0, 0, 10, -1, 0, 1}, {0, 0, 11, -1, 0, 1}, {0, 0, 12, -1, 0, 1}, {0, 0, 13, -1, 0, 1}, {0, 0, 15, -1, 0, 1}, {0, 0, 16, -1, 0, 1}, {0, 0, 17, -1, 0, 1}, {0, 0, -1, 0, 0, 1},
	{0, 0, -1, 1, 0, 1}, {0, 0, -1, 2, 0, 1}, {0, 0, -1, 3, 0, 1}, {0, 0, -1, 4, 0, 1}, {0, 0, -1, 5, 0, 1}, {0, 0, -1, -1, 1, 1}, {0, 0, -1, -1, 0, 2}, {0, 0, -1, -1, 0, 4},
	{0, 0, -1, -1, 0, 0}, {1, 0, -1, -1, 0, 1}, {2, 0, -1, -1, 0, 1}, {3, 0, -1, -1, 0, 1}, {4, 0, -1, -1, 0, 1}, {6, 0, -1, -1, 0, 1}, {7, 0, -1, -1, 0, 1}, {9, 0, -1, -1, 0, 1}};
static void
refused(ccs_result_t x, void *o, struct vcase c, int fine, size_t bs, size_t b0)
{
	v_check(bs <= b0, "no more read than there is");
	v_check((x == CCS_RESULT_SUCCESS) == (fine && c.f < 0 && !V_CTOR_HIT && !V_HIT && c.hm <= 1), "a refusal is reported");
	v_check(HM2.obj.refcount == 0, "the map of sub-objects is dropped");
	if (x == CCS_RESULT_SUCCESS)
		v_check(o == (void *)&NS && NS.obj.refcount == 1 && UDOBJ == (ccs_object_t)o && sub_refs(1), "the object read is returned and alone holds what it was made of");
	else
		v_check(NS.obj.refcount == 0, "nothing is left behind by a refused stream");
	if (x != CCS_RESULT_SUCCESS && NCREATE == 0)
		v_check(sub_refs(0), "no sub-object is left behind by a refused stream");
	for (int k = 0; k < NSUB; k++)
		if (x != CCS_RESULT_SUCCESS && k < NNEW)
			v_check(NEW[k].obj.refcount <= 1, "no sub-object is left behind by a refused stream");
}
//@unit des_cspace cases=32 prop=C05 unwind=26 bounded="two parameters, one condition, one distribution, one clause" funcs=_ccs_configuration_space_deserialize,_ccs_deserialize_bin_configuration_space,_ccs_deserialize_bin_ccs_configuration_space_data flags="--memory-leak-check"
void
h_des_cspace(void)
{
	ccs_configuration_space_t o  = NULL;
	size_t                    bs = 20;
	const char               *b  = VBUF;
	struct vcase              c  = CC[V_CASE];
	v_start(CCS_OBJECT_TYPE_CONFIGURATION_SPACE, c);
	static char A0, A1, A2;
	ARBP[0] = &A0, ARBP[1] = &A1, ARBP[2] = &A2;
	TAPE[1].k = VT_P, TAPE[1].v = 0;
	v_fix(3, c.k == 1 ? N : c.k == 9 ? 0 : 2), v_fix(4, c.k == 2 ? N : c.k == 9 ? 0 : 1), v_fix(5, c.k == 3 ? N : c.k == 9 ? 0 : 1), v_fix(6, c.k == 4 ? N : c.k == 9 ? 0 : 1);
	v_fix(13, c.k == 6 ? 1 : c.k == 7 ? 3 : 2);
	for (int k = 0; k < NSUB; k++)
		DIMS[k] = c.k == 7 ? 3 : 2;
	V_OOMAT          = c.oom;
	DOPTS.map_values = CCS_TRUE;
	ccs_result_t x   = _ccs_configuration_space_deserialize(&o, CCS_SERIALIZE_FORMAT_BINARY, 0, &bs, &b, &DOPTS);
	refused(x, o, c, c.k == 0 || c.k == 9, bs, 20);
	V_REACH("end");
}
/* an objective space: parameters at 5 and 6, objectives at 7 and 9, their
 * directions at 8 and 10, user data at 11; a features space: parameters at 4
 * and 5, user data at 6 */
static const struct vcase OC[24] = {
	{0, 0, -1, -1, 0, 1}, {0, 0, 1, -1, 0, 1}, {0, 0, 4, -1, 0, 1}, {0, 0, 5, -1, 0, 1}, {0, 0, 6, -1, 0, 1}, {0, 0, 9, -1, 0, 1}, {0, 0, 10, -1, 0, 1}, {0, 0, 11, -1, 0, 1},
	{0, 0, -1, 0, 0, 1}, {0, 0, -1, 1, 0, 1}, {0, 0, -1, 2, 0, 1}, {0, 0, -1, -1, 1, 1}, {0, 0, -1, -1, 0, 2}, {0, 0, -1, -1, 0, 4}, {1, 0, -1, -1, 0, 1}, {2, 0, -1, -1, 0, 1},
	{3, 0, -1, -1, 0, 1}, {3, 0, 3, -1, 0, 1}, {3, 0, 5, -1, 0, 1}, {3, 0, 6, -1, 0, 1}, {3, 0, -1, 0, 0, 1}, {3, 0, -1, 1, 0, 1}, {3, 0, -1, -1, 1, 1}, {4, 0, -1, -1, 0, 1}};
//@unit des_oespace cases=24 prop=C05 unwind=26 bounded="two parameters, two objectives" funcs=_ccs_objective_space_deserialize,_ccs_deserialize_bin_objective_space,_ccs_deserialize_bin_ccs_objective_space_data,_ccs_features_space_deserialize,_ccs_deserialize_bin_features_space,_ccs_deserialize_bin_ccs_context_data flags="--memory-leak-check"
void
h_des_oespace(void)
{
	size_t       bs = 14;
	const char  *b  = VBUF;
	struct vcase c  = OC[V_CASE];
	ccs_result_t x;
	void        *o;
	int          fs = c.k >= 3;
	static char  A0, A1, A2;
	v_start(fs ? CCS_OBJECT_TYPE_FEATURES_SPACE : CCS_OBJECT_TYPE_OBJECTIVE_SPACE, c);
	ARBP[0] = &A0, ARBP[1] = &A1, ARBP[2] = &A2;
	TAPE[1].k = VT_P, TAPE[1].v = 0;
	v_fix(3, c.k == 1 || c.k == 4 ? N : 2);
	if (!fs)
		v_fix(4, c.k == 2 ? N : 2);
	V_OOMAT          = c.oom;
	DOPTS.map_values = CCS_TRUE;
	if (fs) {
		ccs_features_space_t f = NULL;
		x = _ccs_features_space_deserialize(&f, CCS_SERIALIZE_FORMAT_BINARY, 0, &bs, &b, &DOPTS);
		o = f;
	} else {
		ccs_objective_space_t f = NULL;
		x = _ccs_objective_space_deserialize(&f, CCS_SERIALIZE_FORMAT_BINARY, 0, &bs, &b, &DOPTS);
		o = f;
	}
	refused(x, o, c, c.k == 0 || c.k == 3, bs, 14);
	V_REACH("end");
}
