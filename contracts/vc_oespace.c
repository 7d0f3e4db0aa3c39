/* Contracts for src/objective_space.c and src/features_space.c (building,
 * lookups, objectives, checking). */
//@property C18
//@assume parameters and expressions by contract (units of C06, C07, C11); uthash by the contract of include/vhash.h, which may run out of memory
#include "vcommon.h"
#define V_POINTER_KEYS
static unsigned V_HADDS, V_HOOMAT;
static int      V_HHIT;
static int hash_oom(void) { int h = V_HOOMAT && ++V_HADDS == V_HOOMAT; V_HHIT |= h; return h; }
#define V_HASH_OOM hash_oom()
#include "vhash.h"
#include "cconfigspace_internal.h"
#include "objective_space_internal.h"
#include "features_space_internal.h"
#include "features_internal.h"
#include "vobj.h"
#define OK(r) ((r) == CCS_RESULT_SUCCESS)
#pragma pack(push, 1)
struct blk_osp { struct _ccs_objective_space_s s; struct _ccs_objective_space_data_s d; char name[3]; };
struct blk_fsp { struct _ccs_features_space_s s; struct _ccs_features_space_data_s d; char name[3]; };
#pragma pack(pop)
struct blk_pw { _ccs_parameter_wrapper_t w[8]; };
struct blk_ob { _ccs_objective_t o[8]; };
#define V_REALLOC_WORDS
#ifdef V_CBMC
static inline void *
v_memcpy_cs(void *d, const void *s, size_t n)
{
	if (n == sizeof(_ccs_objective_t))
		*(_ccs_objective_t *)d = *(const _ccs_objective_t *)s;
	else if (n == sizeof(_ccs_parameter_wrapper_t))
		*(_ccs_parameter_wrapper_t *)d = *(const _ccs_parameter_wrapper_t *)s;
	else
		v_memcpy(d, s, n);
	return d;
}
static inline void *
v_memset_cs(void *d, int c, size_t n)
{
	UT_array z = {0};
	if (n == sizeof(UT_array) && c == 0)
		*(UT_array *)d = z;
	else
		v_memset(d, c, n);
	return d;
}
#undef memcpy
#define memcpy v_memcpy_cs
#undef memset
#define memset v_memset_cs
#endif
#include "valloc_fwd.h"
#include "objective_space.c"
#include "features_space.c"
#define V_ZBLK1 struct blk_osp
#define V_ZBLK2 struct blk_fsp
#define V_BLK1 UT_array
#define V_BLK2 struct blk_pw
#define V_BLK3 struct blk_ob
#define V_BLK4 _ccs_parameter_index_hash_t
#include "valloc.h"
#include "cspace.inc"
static int CTXBAD;
ccs_result_t
ccs_expression_check_context(ccs_expression_t e, ccs_context_t c)
{
	if (!e || ((struct vx *)e)->obj.type != CCS_OBJECT_TYPE_EXPRESSION)
		return CCS_RESULT_ERROR_INVALID_OBJECT;
	return ((struct vx *)e)->bad ? CCS_RESULT_ERROR_INVALID_PARAMETER : CCS_RESULT_SUCCESS;
}
static int PFAIL;
static int accepts(ccs_datum_t v) { return v.type == CCS_DATA_TYPE_INT && v.value.i >= 0; }
ccs_result_t
ccs_parameter_check_value(ccs_parameter_t p, ccs_datum_t v, ccs_bool_t *r)
{
	if ((struct vp *)p - P == PFAIL - 1)
		return CCS_RESULT_ERROR_INVALID_OBJECT;
	*r = accepts(v) ? CCS_TRUE : CCS_FALSE;
	return CCS_RESULT_SUCCESS;
}
/* the value of a parameter: kept, or a string by the parameter's own */
ccs_result_t
ccs_parameter_validate_value(ccs_parameter_t p, ccs_datum_t v, ccs_datum_t *o, ccs_bool_t *r)
{
	*r = accepts(v) ? CCS_TRUE : CCS_FALSE;
	if (accepts(v))
		*o = ccs_int(v.value.i + ((struct vp *)p - P));
	return CCS_RESULT_SUCCESS;
}
/* the two kinds of space behind one face; FS is fixed per case */
#define FS (V_CASE & 1)
#define C (V_CASE >> 1)
static ccs_objective_space_t OS;
static ccs_features_space_t  FSP;
#define S_(f, ...) (FS ? ccs_features_space_##f(FSP, ##__VA_ARGS__) : ccs_objective_space_##f(OS, ##__VA_ARGS__))
static ccs_result_t
create(const char *n)
{
	return FS ? ccs_create_features_space(n, &FSP) : ccs_create_objective_space(n, &OS);
}
static void
destroy(void)
{
	if (FS) {
		FSP->obj.ops->del((ccs_object_t)FSP);
		free(FSP);
	} else {
		OS->obj.ops->del((ccs_object_t)OS);
		free(OS);
	}
}
#define PAR(k) ((ccs_parameter_t)&P[k])
static void
consistent(size_t n)
{
	size_t          cnt = 99;
	ccs_parameter_t p, l[4];
	v_check(OK(S_(get_num_parameters, &cnt)) && cnt == n, "number of parameters");
	for (size_t k = 0; k < n; k++) {
		ccs_parameter_t q = NULL;
		size_t          i = 99, j = 99;
		p = NULL;
		v_check(OK(S_(get_parameter, k, &p)) && p == PAR(k), "found by position");
		v_check(OK(S_(get_parameter_by_name, P[k].name, &q)) && q == PAR(k) && OK(S_(get_parameter_index_by_name, P[k].name, &j)) && j == k, "found by name");
		v_check(OK(S_(get_parameter_index, PAR(k), &i)) && i == k, "found by identity");
		v_check(P[k].obj.refcount == 2, "held once by the space");
		i = 99;
		p = PAR(k);
		v_check(OK(S_(get_parameter_indexes, 1, &p, &i)) && i == k, "found by identity");
		ccs_datum_t d = ccs_none;
		v_check(OK(S_(validate_value, k, ccs_int(5), &d)) && d.type == CCS_DATA_TYPE_INT && d.value.i == 5 + (ccs_int_t)k && !OK(S_(validate_value, k, ccs_int(-1), &d)), "values are validated by the parameter at the position");
	}
	ccs_datum_t d;
	v_check(!OK(S_(get_parameter, n, &p)) && !OK(S_(validate_value, n, ccs_int(5), &d)), "nothing past the parameters");
	for (int k = 0; k < 4; k++)
		l[k] = PAR(3);
	v_check(OK(S_(get_parameters, 4, l, &cnt)) && cnt == n, "the parameters");
	for (size_t k = 0; k < 4; k++)
		v_check(l[k] == (k < n ? PAR(k) : NULL), "the parameters in order, then nothing");
	v_check(n == 0 || !OK(S_(get_parameters, n - 1, n > 1 ? l : NULL, n > 1 ? &cnt : NULL)), "a short array is refused");
}
/* C: 0 no failure; 1 to 3 allocations of the creation, 4 no name; 5 and 6 the
 * allocations of a parameter, 7 and 8 its hashes; 9 same name, 10 not a
 * parameter, 11 itself again */
//@unit oe_add cases=24 prop=C12,C14,C18 unwind=14 bounded="3 parameters, names of up to 2 characters" flags="--memory-leak-check" funcs=ccs_create_objective_space,ccs_create_features_space,ccs_objective_space_add_parameter,ccs_features_space_add_parameter,ccs_objective_space_add_parameters,ccs_features_space_add_parameters,_ccs_objective_space_del,_ccs_features_space_del,_ccs_context_get_parameter,_ccs_context_get_parameter_by_name,_ccs_context_get_parameter_index,_ccs_context_get_parameter_index_by_name,_ccs_context_get_parameters,_ccs_context_validate_value
void
h_oe_add(void)
{
	base();
	V_OOMAT = C >= 1 && C <= 3 ? C : 0;
	ccs_result_t r = create(C == 4 ? NULL : "cs");
	v_check(OK(r) == !(C == 4 || V_HIT), "a space is created unless memory runs out");
	if (!OK(r)) {
		v_check(OS == NULL && FSP == NULL, "nothing given");
		V_REACH("end");
		return;
	}
	V_OOMAT = 0, V_HIT = 0;
	consistent(0);
	const char *nm = NULL;
	v_check(OK(S_(get_name, &nm)) && nm[0] == 'c' && nm[1] == 's' && nm[2] == 0 && !OK(S_(get_name, NULL)), "its name");
	v_check(OK(S_(add_parameter, PAR(0))), "a parameter is kept");
	consistent(1);
	if (C >= 5) {
		struct vp *p = C == 9 ? &P[3] : C == 11 ? &P[0] : &P[1];
		V_ALLOCS = 0;
		if (C == 6) {
			UT_array *a = FS ? FSP->data->parameters : OS->data->parameters;
			a->n = 1;
		}
		V_OOMAT  = C == 5 || C == 6 ? C - 4 : 0;
		V_HOOMAT = C == 7 ? 1 : C == 8 ? 2 : 0;
		if (C == 10)
			p->obj.type = CCS_OBJECT_TYPE_RNG;
		r = S_(add_parameter, (ccs_parameter_t)p);
		v_check(!OK(r) || C <= 8 && !V_HIT && !V_HHIT, "refused");
		if (OK(r)) {
			destroy();
			V_REACH("end");
			return;
		}
		V_OOMAT = V_HOOMAT = 0;
		P[1].obj.type = CCS_OBJECT_TYPE_PARAMETER;
		v_check(P[1].obj.refcount == 1 && P[3].obj.refcount == 1, "what was refused is not kept");
		ccs_parameter_t q;
		size_t          i;
		v_check(!OK(S_(get_parameter_by_name, "ab", &q)) && !OK(S_(get_parameter_index, PAR(1), &i)) && !OK(S_(get_parameter_index_by_name, "ab", &i)), "what was refused is not found");
		consistent(1);
	}
	ccs_parameter_t two[2] = {PAR(1), PAR(2)};
	v_check(OK(S_(add_parameters, 2, two)) && !OK(S_(add_parameters, 1, NULL)), "parameters added");
	consistent(3);
	destroy();
	for (int k = 0; k < NP; k++)
		v_check(P[k].obj.refcount == 1, "a destroyed space holds nothing");
	V_REACH("end");
}
#undef C
/* Objectives.  V_CASE: 0 two objectives, 1 the second of other parameters, 2 no
 * memory for the first, 3 the same, both given at once, 4 not an expression */
//@unit oe_objectives cases=5 prop=C12,C14,C18 unwind=14 bounded="2 objectives" flags="--memory-leak-check" funcs=ccs_objective_space_add_objective,ccs_objective_space_add_objectives,ccs_objective_space_get_objective,ccs_objective_space_get_objectives
void
h_oe_objectives(void)
{
	ccs_objective_space_t s = NULL;
	base();
	v_check(OK(ccs_create_objective_space("cs", &s)), "created");
	ccs_expression_t     e[2] = {(ccs_expression_t)&X[0], (ccs_expression_t)&X[1]};
	ccs_objective_type_t t[2] = {CCS_OBJECTIVE_TYPE_MAXIMIZE, CCS_OBJECTIVE_TYPE_MINIMIZE};
	ccs_result_t         r;
	size_t               n = 0;
	X[1].bad = V_CASE == 1;
	V_ALLOCS = 0, V_HIT = 0, V_OOMAT = V_CASE == 2 || V_CASE == 3;
	if (V_CASE == 3)
		r = ccs_objective_space_add_objectives(s, 2, e, t);
	else
		r = ccs_objective_space_add_objective(s, V_CASE == 4 ? (ccs_expression_t)&P[0] : e[0], t[0]);
	V_OOMAT = 0;
	v_check(OK(r) == (V_CASE != 4 && !V_HIT), "an objective is added");
	n = OK(r) ? V_CASE == 3 ? 2 : 1 : 0;
	v_check(X[0].obj.refcount == 1 + (n >= 1) && X[1].obj.refcount == 1 + (n == 2), "only objectives that are added are kept");
	if (n == 1) {
		r = ccs_objective_space_add_objectives(s, 1, e + 1, t + 1);
		v_check(OK(r) == (V_CASE != 1), "an objective refers to parameters of the space");
		n += OK(r);
		v_check(X[1].obj.refcount == 1 + (n == 2), "only objectives that are added are kept");
	}
	ccs_expression_t     q = NULL, l[4];
	ccs_objective_type_t u, v[4];
	for (size_t k = 0; k < n; k++)
		v_check(OK(ccs_objective_space_get_objective(s, k, &q, &u)) && q == e[k] && u == t[k], "the objectives in order");
	v_check(!OK(ccs_objective_space_get_objective(s, n, &q, &u)) && !OK(ccs_objective_space_get_objective(s, 0, NULL, &u)) && !OK(ccs_objective_space_get_objective(s, 0, &q, NULL)), "out of range");
	size_t m = nd_upto(4), cnt = 99;
	int    hasout = nd_bool(), hasret = nd_bool();
	for (int k = 0; k < 4; k++)
		l[k] = (ccs_expression_t)&X[3], v[k] = (ccs_objective_type_t)7;
	r = ccs_objective_space_get_objectives(s, m, hasout ? l : NULL, hasout ? v : NULL, hasret ? &cnt : NULL);
	v_check(OK(r) == !((!hasout && m) || (!hasout && !hasret) || (hasout && m < n)), "the array protocol");
	v_check(!OK(r) || !hasret || cnt == n, "the count is that of the whole");
	for (size_t k = 0; k < 4; k++)
		if (OK(r) && hasout && k < m)
			v_check(l[k] == (k < n ? e[k] : NULL) && v[k] == (k < n ? t[k] : CCS_OBJECTIVE_TYPE_MINIMIZE), "the elements in order, then nothing");
		else
			v_check(l[k] == (ccs_expression_t)&X[3] && v[k] == (ccs_objective_type_t)7, "nothing past the array, nothing when refused");
	s->obj.ops->del((ccs_object_t)s);
	free(s);
	for (int k = 0; k < NP; k++)
		v_check(X[k].obj.refcount == 1, "a destroyed space holds nothing");
	V_REACH("end");
}
/* Checking.  V_CASE & 1: features; V_CASE / 2: number of parameters */
//@unit oe_check cases=6 prop=C17 unwind=6 bounded="up to 2 parameters" funcs=ccs_objective_space_check_evaluation_values,ccs_features_space_check_features_values,ccs_features_space_check_features,_check_evaluation,_check_features
void
h_oe_check(void)
{
	static struct _ccs_objective_space_s      O;
	static struct _ccs_objective_space_data_s OD;
	static struct _ccs_features_space_s       T, T2;
	static struct _ccs_features_space_data_s  TD;
	static struct _ccs_features_s             E;
	static struct _ccs_features_data_s        ED;
	static UT_array                           A;
	static _ccs_parameter_wrapper_t           B[8];
	const size_t n = V_CASE / 2;
	ccs_datum_t  v[3];
	ccs_bool_t   valid = (ccs_bool_t)7;
	base();
	A.icd = _parameter_wrapper2_icd, A.i = (unsigned)n, A.n = 8, A.d = (char *)B;
	B[0].parameter = PAR(0), B[1].parameter = PAR(1);
	_ccs_object_init(&O.obj, CCS_OBJECT_TYPE_OBJECTIVE_SPACE, NULL), O.data = &OD, OD.parameters = &A;
	_ccs_object_init(&T.obj, CCS_OBJECT_TYPE_FEATURES_SPACE, NULL), T.data = &TD, TD.parameters = &A;
	T2 = T;
	_ccs_object_init(&E.obj, CCS_OBJECT_TYPE_FEATURES, NULL), E.data = &ED;
	PFAIL = nd_bool();
	int ok = 1, sure = !(PFAIL && n), bad = 0;
	for (size_t k = 0; k < 3; k++) {
		uint64_t c = nd_u64() & 3;
		v[k] = c == 0 ? ccs_inactive : c == 1 ? ccs_none : ccs_int(nd_i64());
		if (k < n)
			ok &= accepts(v[k]), bad |= !accepts(v[k]) && (int)k != PFAIL - 1;
	}
	size_t m = nd_upto(3);
	ED.features_space = nd_bool() ? &T : &T2, ED.num_values = m, ED.values = v;
	int          viaobj = FS && nd_bool(), foreign = viaobj && ED.features_space != &T;
	ccs_result_t r = viaobj ? ccs_features_space_check_features(&T, &E, &valid) : FS ? ccs_features_space_check_features_values(&T, m, m ? v : NULL, &valid) : ccs_objective_space_check_evaluation_values(&O, m, m ? v : NULL, &valid);
	if (foreign || m != n)
		v_check(!OK(r), "another space or another number of values is refused");
	else if (sure)
		v_check(OK(r) && valid == (ok ? CCS_TRUE : CCS_FALSE), "valid exactly when every parameter accepts its value");
	else
		v_check(!OK(r) || (valid == CCS_FALSE && bad), "what cannot be told is never called valid");
	V_REACH("end");
}
