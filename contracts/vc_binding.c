/* Contracts for src/binding.c, src/binding_internal.h, src/context.c,
 * src/context_internal.h, src/configuration.c, src/features.c and the value
 * part of src/evaluation.c. */
//@property C14
//@assume Jenkins' hash function (uthash.h) is a function of the bytes it is given
//@assume uthash is replaced by its abstract contract (include/vhash.h)
//@assume ccs_parameter_validate_value by contract (enforced for each parameter kind in C06/C07): accepts or refuses, and stores its own copy of an accepted value
#include "vcommon.h"
#include "vhash.h"
#undef HASH_JEN
#ifdef V_CBMC
unsigned __CPROVER_uninterpreted_jen(uint64_t, size_t);
static unsigned
v_jen(const void *k, size_t n)
{
	uint64_t w = 0;
	v_check(n <= 8, "key of at most 8 bytes");
	for (size_t i = 0; i < n; i++)
		w = (w << 8) | ((const unsigned char *)k)[i];
	return __CPROVER_uninterpreted_jen(w, n);
}
#else
static unsigned
v_jen(const void *k, size_t n)
{
	unsigned h = 5381;
	for (size_t i = 0; i < n; i++)
		h = h * 33 + ((const unsigned char *)k)[i];
	return h;
}
#endif
#define HASH_JEN(key, keylen, hashv) ((hashv) = v_jen(key, keylen))
#include "binding_internal.h"
#include "context_internal.h"
#include "configuration_internal.h"
#include "features_internal.h"
#include "evaluation_internal.h"
#include "configuration_space_internal.h"
#include "features_space_internal.h"
#include "objective_space_internal.h"
#include "vspec.h"
#include "vobj.h"
#pragma pack(push, 1)
struct blk_bind { struct _ccs_configuration_s o; struct _ccs_configuration_data_s d; ccs_datum_t v[2]; };
struct blk_eval { struct _ccs_evaluation_s o; struct _ccs_evaluation_data_s d; ccs_datum_t v[2]; };
#pragma pack(pop)
#define V_BLK1 struct blk_bind
#define V_BLK2 struct blk_eval
#include "valloc.h"
#include "binding.c"
#include "context.c"
#include "configuration.c"
#include "features.c"
#include "evaluation.c"
#define NP 2
/* a context with two parameters "a" and "bc" */
static struct _ccs_parameter_s PAR[NP + 1];
static _ccs_parameter_data_t *PDATA;
static _ccs_parameter_wrapper_t WR[NP];
static _ccs_parameter_index_hash_t PH[NP];
static UT_array PARR, OARR;
static struct _ccs_objective_space_data_s CD[2];
static struct _ccs_objective_space_s CTX[2];
static char NMA[2] = "a", NMB[3] = "bc";
static int VALS; /* number of validations */
static size_t VIDX[4];
static ccs_datum_t VARG[4];
static int VREF; /* 1 + number of the refused validation, 0: none */
static void
mk_context(ccs_object_type_t t)
{
	for (int i = 0; i <= NP; i++)
		mk_shell(PAR + i, CCS_OBJECT_TYPE_PARAMETER, NULL, &PDATA);
	for (int i = 0; i < NP; i++) {
		WR[i].parameter   = PAR + i;
		PH[i].parameter   = PAR + i;
		PH[i].name        = i ? NMB : NMA;
		PH[i].index       = i;
		PH[i].hh_name.key = PH[i].name;
		PH[i].hh_name.keylen   = i ? 2 : 1;
		PH[i].hh_name.next     = i ? NULL : &PH[1];
		PH[i].hh_handle.key    = &PH[i].parameter;
		PH[i].hh_handle.keylen = sizeof(ccs_parameter_t);
		PH[i].hh_handle.next   = i ? NULL : &PH[1];
	}
	PARR.i = PARR.n = NP;
	PARR.icd.sz = sizeof(_ccs_parameter_wrapper_t);
	PARR.d      = (char *)WR;
	for (int i = 0; i < 2; i++) {
		CD[i].name        = "s";
		CD[i].parameters  = &PARR;
		CD[i].name_hash   = PH;
		CD[i].handle_hash = PH;
		mk_shell(CTX + i, t, NULL, CD + i);
		CTX[i].obj.refcount = 3;
	}
	VALS = VREF = 0;
}
ccs_result_t
ccs_parameter_validate_value(ccs_parameter_t p, ccs_datum_t v, ccs_datum_t *r, ccs_bool_t *ok)
{
	v_check(p == PAR || p == PAR + 1, "parameter of the context");
	v_check(VALS < 4, "at most one validation per value");
	VIDX[VALS] = p == PAR + 1;
	VARG[VALS] = v;
	VALS++;
	*ok = VREF != VALS;
	*r  = ccs_int(1000 + VIDX[VALS - 1]);
	if (!*ok)
		*r = ccs_inactive;
	return CCS_RESULT_SUCCESS;
}
#define SPACE(k, T)                                                            \
	ccs_result_t ccs_##k##_get_num_parameters(T s, size_t *n)              \
	{                                                                      \
		return ccs_context_get_num_parameters((ccs_context_t)s, n);    \
	}                                                                      \
	ccs_result_t ccs_##k##_validate_value(T s, size_t i, ccs_datum_t v, ccs_datum_t *r) \
	{                                                                      \
		return ccs_context_validate_value((ccs_context_t)s, i, v, r);  \
	}
SPACE(configuration_space, ccs_configuration_space_t)
SPACE(features_space, ccs_features_space_t)
SPACE(objective_space, ccs_objective_space_t)
ccs_result_t ccs_configuration_space_check_configuration(ccs_configuration_space_t s, ccs_configuration_t c, ccs_bool_t *r) { *r = CCS_TRUE; return CCS_RESULT_SUCCESS; }
ccs_result_t ccs_features_space_check_features(ccs_features_space_t s, ccs_features_t c, ccs_bool_t *r) { *r = CCS_TRUE; return CCS_RESULT_SUCCESS; }
ccs_result_t ccs_objective_space_check_evaluation_values(ccs_objective_space_t s, size_t n, ccs_datum_t *v, ccs_bool_t *r) { *r = CCS_TRUE; return CCS_RESULT_SUCCESS; }
ccs_result_t ccs_objective_space_get_objective(ccs_objective_space_t s, size_t i, ccs_expression_t *e, ccs_objective_type_t *t) { return CCS_RESULT_ERROR_INVALID_VALUE; }
ccs_result_t ccs_objective_space_get_objectives(ccs_objective_space_t s, size_t n, ccs_expression_t *e, ccs_objective_type_t *t, size_t *r) { return CCS_RESULT_ERROR_INVALID_VALUE; }
ccs_result_t ccs_expression_eval(ccs_expression_t e, ccs_context_t c, ccs_datum_t *v, ccs_datum_t *r) { return CCS_RESULT_ERROR_INVALID_VALUE; }

static struct _ccs_configuration_data_s CFD;
static struct _ccs_configuration_s CFG;
#define OK(r) ((r) == CCS_RESULT_SUCCESS)
/* the three kinds of binding behind one face */
static ccs_object_type_t CT, BT;
static int K;
static void
kind(int k)
{
	K  = k;
	BT = k == 0 ? CCS_OBJECT_TYPE_CONFIGURATION : k == 1 ? CCS_OBJECT_TYPE_FEATURES : CCS_OBJECT_TYPE_EVALUATION;
	CT = k == 0 ? CCS_OBJECT_TYPE_CONFIGURATION_SPACE : k == 1 ? CCS_OBJECT_TYPE_FEATURES_SPACE : CCS_OBJECT_TYPE_OBJECTIVE_SPACE;
	mk_context(CT);
	if (k == 2) {
		mk_shell(&CFG, CCS_OBJECT_TYPE_CONFIGURATION, NULL, &CFD);
		CFG.obj.ops      = (_ccs_object_ops_t *)&_configuration_ops;
		CFG.obj.refcount = 5;
		CFD.num_values   = 0;
	}
}
static ccs_result_t
create(void *s, size_t n, ccs_datum_t *v, ccs_binding_t *b)
{
	if (K == 0)
		return ccs_create_configuration((ccs_configuration_space_t)s, n, v, (ccs_configuration_t *)b);
	if (K == 1)
		return ccs_create_features((ccs_features_space_t)s, n, v, (ccs_features_t *)b);
	return ccs_create_evaluation((ccs_objective_space_t)s, &CFG, CCS_RESULT_SUCCESS, n, v, (ccs_evaluation_t *)b);
}
static ccs_result_t
get_values(ccs_binding_t b, size_t n, ccs_datum_t *v, size_t *r)
{
	return K == 0 ? ccs_configuration_get_values((ccs_configuration_t)b, n, v, r) : K == 1 ? ccs_features_get_values((ccs_features_t)b, n, v, r) : K == 2 ? ccs_evaluation_get_values((ccs_evaluation_t)b, n, v, r) : ccs_binding_get_values(b, n, v, r);
}
static ccs_result_t
get_value(ccs_binding_t b, size_t i, ccs_datum_t *v)
{
	return K == 0 ? ccs_configuration_get_value((ccs_configuration_t)b, i, v) : K == 1 ? ccs_features_get_value((ccs_features_t)b, i, v) : K == 2 ? ccs_evaluation_get_value((ccs_evaluation_t)b, i, v) : ccs_binding_get_value(b, i, v);
}
static ccs_result_t
set_value(ccs_binding_t b, size_t i, ccs_datum_t v)
{
	return K == 0 ? ccs_configuration_set_value((ccs_configuration_t)b, i, v) : K == 1 ? ccs_features_set_value((ccs_features_t)b, i, v) : K == 2 ? ccs_evaluation_set_value((ccs_evaluation_t)b, i, v) : ccs_binding_set_value(b, i, v);
}
static ccs_result_t
by_name(ccs_binding_t b, const char *n, ccs_datum_t *v)
{
	return K == 0 ? ccs_configuration_get_value_by_name((ccs_configuration_t)b, n, v) : K == 1 ? ccs_features_get_value_by_name((ccs_features_t)b, n, v) : K == 2 ? ccs_evaluation_get_value_by_name((ccs_evaluation_t)b, n, v) : ccs_binding_get_value_by_name(b, n, v);
}
static ccs_result_t
get_context(ccs_binding_t b, void **c)
{
	return K == 0 ? ccs_configuration_get_configuration_space((ccs_configuration_t)b, (ccs_configuration_space_t *)c) : K == 1 ? ccs_features_get_features_space((ccs_features_t)b, (ccs_features_space_t *)c) : K == 2 ? ccs_evaluation_get_objective_space((ccs_evaluation_t)b, (ccs_objective_space_t *)c) : ccs_binding_get_context(b, (ccs_context_t *)c);
}
static ccs_result_t
cmp(ccs_binding_t a, ccs_binding_t b, int *c)
{
	return K == 0 ? ccs_configuration_cmp((ccs_configuration_t)a, (ccs_configuration_t)b, c) : K == 1 ? ccs_features_cmp((ccs_features_t)a, (ccs_features_t)b, c) : K == 2 ? ccs_evaluation_cmp((ccs_evaluation_t)a, (ccs_evaluation_t)b, c) : ccs_binding_cmp(a, b, c);
}
static ccs_result_t
hash(ccs_binding_t a, ccs_hash_t *h)
{
	return K == 0 ? ccs_configuration_hash((ccs_configuration_t)a, h) : K == 1 ? ccs_features_hash((ccs_features_t)a, h) : K == 2 ? ccs_evaluation_hash((ccs_evaluation_t)a, h) : ccs_binding_hash(a, h);
}
/* a non-string value; the flag says whether it is transient */
static ccs_datum_t
val(ccs_data_type_t t)
{
	ccs_datum_t d = ccs_none;
	d.type        = t;
	if (t == CCS_DATA_TYPE_FLOAT)
		d.value.f = nd_f64();
	else
		d.value.i = nd_i64();
	d.flags = nd_bool() ? CCS_DATUM_FLAG_TRANSIENT : CCS_DATUM_FLAG_DEFAULT;
	return d;
}
static void
del(ccs_binding_t b)
{
	v_check(OK(b->obj.ops->del(b)), "del");
	free(b);
}
static void
do_create(int k)
{
	kind(k);
	ccs_datum_t   v[3], v0[3];
	ccs_binding_t b = NULL;
	v_check(create(NULL, 0, NULL, &b) == CCS_RESULT_ERROR_INVALID_OBJECT && !b, "no space");
	v_check(create(CTX, 2, NULL, &b) == CCS_RESULT_ERROR_INVALID_VALUE && !b, "no values");
	v_check(create(CTX, 0, NULL, NULL) == CCS_RESULT_ERROR_INVALID_VALUE, "no result");
	v[0] = val(CCS_DATA_TYPE_INT);
	v[1] = val(CCS_DATA_TYPE_FLOAT);
	v[2] = ccs_true;
	for (int i = 0; i < 3; i++)
		v0[i] = v[i];
	v_check(create(CTX, 3, v, &b) == CCS_RESULT_ERROR_INVALID_VALUE && create(CTX, 1, v, &b) == CCS_RESULT_ERROR_INVALID_VALUE && !b, "wrong number of values");
	v_check(REFS(CTX) == 3 && (k != 2 || REFS(&CFG) == 5), "references unchanged by a refused creation");
	V_OOM          = nd_bool();
	VREF           = (int)nd_upto(2);
	ccs_result_t r = create(CTX, 2, v, &b);
	int          t0 = v0[0].flags != 0, t1 = v0[1].flags != 0;
	for (int i = 0; i < 3; i++)
		v_check(datum_same(v + i, v0 + i), "given values untouched");
	if (!OK(r)) {
		v_check(!b, "no result");
		v_check(REFS(CTX) == 3 && (k != 2 || REFS(&CFG) == 5), "references unchanged by a failed creation");
		v_check((r == CCS_RESULT_ERROR_OUT_OF_MEMORY && V_OOM) || (r == CCS_RESULT_ERROR_INVALID_VALUE && VREF > 0 && VREF <= t0 + t1), "fails only without memory or on a refused value");
		return;
	}
	v_check(b->obj.type == BT && REFS(b) == 1, "a new object");
	v_check(REFS(CTX) == 4 && (k != 2 || REFS(&CFG) == 6), "one reference to each object kept");
	v_check(!(VREF > 0 && VREF <= t0 + t1), "a refused value refuses the creation");
	v_check(VALS == t0 + t1 && (!t0 || VIDX[0] == 0) && (!t1 || VIDX[t0] == 1), "transient values validated against their parameter");
	v[0].value.i = v[1].value.i = 77;
	for (int i = 0; i < 2; i++) {
		ccs_datum_t x = ccs_true;
		v_check(OK(get_value(b, i, &x)), "get");
		if (v0[i].flags)
			v_check(x.type == CCS_DATA_TYPE_INT && x.value.i == 1000 + i && !(x.flags & CCS_DATUM_FLAG_TRANSIENT), "the context's copy of a transient value");
		else
			v_check(datum_same(&x, v0 + i), "given value");
	}
	void *c = NULL;
	v_check(OK(get_context(b, &c)) && c == CTX, "context");
	del(b);
	v_check(REFS(CTX) == 3 && (k != 2 || REFS(&CFG) == 5), "references given back");
}
static void
do_create_default(int k)
{
	kind(k);
	ccs_binding_t b = NULL;
	ccs_datum_t x = ccs_true, y = ccs_true;
	v_check(OK(create(CTX, 0, NULL, &b)) && b, "without values");
	v_check(OK(get_value(b, 0, &x)) && OK(get_value(b, 1, &y)) && is_none(&x) && is_none(&y), "values default to none");
	v_check(REFS(CTX) == 4, "one reference to the context");
	del(b);
	v_check(REFS(CTX) == 3, "reference given back");
}
//@unit config_create prop=C12,C14 unwind=5 bounded="2 parameters" funcs=ccs_create_configuration,_ccs_configuration_del flags="--memory-leak-check"
void h_config_create(void) { do_create(0); V_REACH("end"); }
//@unit features_create prop=C12,C14 unwind=5 bounded="2 parameters" funcs=ccs_create_features,_ccs_features_del flags="--memory-leak-check"
void h_features_create(void) { do_create(1); V_REACH("end"); }
//@unit eval_create prop=C12,C14 unwind=5 bounded="2 parameters" funcs=ccs_create_evaluation,_ccs_evaluation_del flags="--memory-leak-check"
void h_eval_create(void) { do_create(2); V_REACH("end"); }
//@unit binding_create_default prop=C12,C14 unwind=5 bounded="2 parameters" funcs=ccs_create_configuration,ccs_create_features,ccs_create_evaluation flags="--memory-leak-check"
void h_binding_create_default(void) { do_create_default(0); do_create_default(1); do_create_default(2); V_REACH("end"); }

static ccs_datum_t V0[2];
static ccs_binding_t B;
static void
mk_b(int k)
{
	kind(k);
	V0[0] = val(CCS_DATA_TYPE_INT);
	V0[1] = val(CCS_DATA_TYPE_FLOAT);
	V0[0].flags = V0[1].flags = 0;
	B = NULL;
	v_check(OK(create(CTX, 2, V0, &B)) && B, "create");
}
static void
is_vals(const ccs_datum_t *a, const ccs_datum_t *b)
{
	ccs_datum_t x, y;
	v_check(OK(get_value(B, 0, &x)) && OK(get_value(B, 1, &y)), "get");
	v_check(datum_same(&x, a) && datum_same(&y, b), "values");
}
static void
do_access(int k, int face)
{
	mk_b(k);
	if (face)
		K = 3;
	ccs_datum_t o[4], x = ccs_true;
	size_t      n = 77, i = nd_u64();
	ccs_result_t r = get_value(B, i, &x);
	if (i < 2)
		v_check(OK(r) && datum_same(&x, V0 + i), "value at an index");
	else
		v_check(r == CCS_RESULT_ERROR_OUT_OF_BOUNDS && datum_same(&x, &ccs_true), "index out of bounds");
	v_check(get_value(B, 0, NULL) == CCS_RESULT_ERROR_INVALID_VALUE, "no result");
	v_check(get_value(NULL, 0, &x) == CCS_RESULT_ERROR_INVALID_OBJECT, "no object");
	v_check(OK(get_values(B, 0, NULL, &n)) && n == 2, "number of values");
	for (int l = 0; l < 4; l++) {
		for (int j = 0; j < 4; j++)
			o[j] = ccs_true;
		n = 77;
		r = get_values(B, l, o, &n);
		if (l < 2) {
			v_check(r == CCS_RESULT_ERROR_INVALID_VALUE && n == 77, "short array refused");
			v_check(datum_same(o, &ccs_true) && datum_same(o + 1, &ccs_true), "untouched when refused");
		} else {
			v_check(OK(r) && n == 2 && datum_same(o, V0) && datum_same(o + 1, V0 + 1), "values");
			v_check(l < 3 || is_none(o + 2), "rest filled with none");
			v_check(datum_same(o + 3, &ccs_true) && (l > 2 || datum_same(o + 2, &ccs_true)), "nothing beyond the array");
		}
	}
	v_check(OK(get_values(B, 2, o, NULL)), "count is optional");
	v_check(get_values(B, 0, NULL, NULL) == CCS_RESULT_ERROR_INVALID_VALUE && get_values(B, 1, NULL, &n) == CCS_RESULT_ERROR_INVALID_VALUE, "bad arguments");
	v_check(OK(by_name(B, "a", &x)) && datum_same(&x, V0) && OK(by_name(B, "bc", &x)) && datum_same(&x, V0 + 1), "by name");
	x = ccs_true;
	v_check(by_name(B, "b", &x) == CCS_RESULT_ERROR_INVALID_NAME && by_name(B, "", &x) == CCS_RESULT_ERROR_INVALID_NAME && by_name(B, "bcd", &x) == CCS_RESULT_ERROR_INVALID_NAME && datum_same(&x, &ccs_true), "unknown name");
	v_check(by_name(B, NULL, &x) == CCS_RESULT_ERROR_INVALID_VALUE, "no name");
	is_vals(V0, V0 + 1);
}
static void
do_set(int k, int face)
{
	mk_b(k);
	if (face)
		K = 3;
	size_t       i = nd_u64();
	ccs_datum_t  w = val(CCS_DATA_TYPE_INT), x = w, m = ccs_int(1000 + (i == 1));
	VREF           = (int)nd_upto(1);
	ccs_result_t r = set_value(B, i, w);
	if (i >= 2) {
		v_check(r == CCS_RESULT_ERROR_OUT_OF_BOUNDS, "index out of bounds");
		is_vals(V0, V0 + 1);
	} else if (w.flags && VREF) {
		v_check(r == CCS_RESULT_ERROR_INVALID_VALUE, "refused");
		is_vals(V0, V0 + 1);
	} else {
		if (w.flags)
			x = m;
		v_check(OK(r), "set");
		is_vals(i == 0 ? &x : V0, i == 1 ? &x : V0 + 1);
	}
}
//@unit config_access unwind=5 bounded="2 parameters" funcs=ccs_configuration_get_value,ccs_configuration_get_values,ccs_configuration_get_value_by_name
void h_config_access(void) { do_access(0, 0); V_REACH("end"); }
//@unit features_access unwind=5 bounded="2 parameters" funcs=ccs_features_get_value,ccs_features_get_values,ccs_features_get_value_by_name
void h_features_access(void) { do_access(1, 0); V_REACH("end"); }
//@unit eval_access unwind=5 bounded="2 parameters" funcs=ccs_evaluation_get_value,ccs_evaluation_get_values,ccs_evaluation_get_value_by_name
void h_eval_access(void) { do_access(2, 0); V_REACH("end"); }
//@unit binding_access unwind=5 bounded="2 parameters" funcs=ccs_binding_get_value,ccs_binding_get_values,ccs_binding_get_value_by_name
void h_binding_access(void) { do_access(0, 1); V_REACH("end"); }
//@unit config_set unwind=5 bounded="2 parameters" funcs=ccs_configuration_set_value
void h_config_set(void) { do_set(0, 0); V_REACH("end"); }
//@unit features_set unwind=5 bounded="2 parameters" funcs=ccs_features_set_value
void h_features_set(void) { do_set(1, 0); V_REACH("end"); }
//@unit eval_set unwind=5 bounded="2 parameters" funcs=ccs_evaluation_set_value
void h_eval_set(void) { do_set(2, 0); V_REACH("end"); }
//@unit binding_set unwind=5 bounded="2 parameters" funcs=ccs_binding_set_value
void h_binding_set(void) { do_set(1, 1); V_REACH("end"); }
//@unit binding_set_values unwind=5 bounded="2 parameters" funcs=ccs_binding_set_values,ccs_binding_set_value_by_name,ccs_binding_set_value_by_parameter,ccs_binding_get_value_by_parameter
void
h_binding_set_values(void)
{
	mk_b(0);
	K = 3;
	ccs_datum_t w[3] = {val(CCS_DATA_TYPE_FLOAT), val(CCS_DATA_TYPE_INT), ccs_true}, m[2] = {ccs_int(1000), ccs_int(1001)}, x = ccs_true;
	v_check(ccs_binding_set_values(B, 1, w) == CCS_RESULT_ERROR_INVALID_VALUE && ccs_binding_set_values(B, 3, w) == CCS_RESULT_ERROR_INVALID_VALUE && ccs_binding_set_values(B, 2, NULL) == CCS_RESULT_ERROR_INVALID_VALUE, "wrong number of values");
	is_vals(V0, V0 + 1);
	v_check(OK(ccs_binding_set_values(B, 2, w)), "set");
	is_vals(w[0].flags ? m : w, w[1].flags ? m + 1 : w + 1);
	w[2] = ccs_int(nd_i64());
	VALS = 0;
	v_check(OK(ccs_binding_set_value_by_name(B, "bc", w[2])), "by name");
	is_vals(w[0].flags ? m : w, w + 2);
	v_check(OK(ccs_binding_get_value_by_parameter(B, PAR + 1, &x)) && datum_same(&x, w + 2), "by parameter");
	v_check(OK(ccs_binding_set_value_by_parameter(B, PAR, w[2])), "by parameter");
	is_vals(w + 2, w + 2);
	v_check(ccs_binding_set_value_by_name(B, "c", ccs_true) == CCS_RESULT_ERROR_INVALID_NAME && ccs_binding_set_value_by_name(B, NULL, ccs_true) == CCS_RESULT_ERROR_INVALID_VALUE, "unknown name");
	v_check(ccs_binding_set_value_by_parameter(B, PAR + 2, ccs_true) == CCS_RESULT_ERROR_INVALID_PARAMETER && ccs_binding_get_value_by_parameter(B, PAR + 2, &x) == CCS_RESULT_ERROR_INVALID_PARAMETER && ccs_binding_set_value_by_parameter(B, NULL, ccs_true) == CCS_RESULT_ERROR_INVALID_PARAMETER, "unknown parameter");
	is_vals(w + 2, w + 2);
	V_REACH("end");
}
//@unit context_access unwind=6 bounded="2 parameters" funcs=ccs_context_get_parameter_index,ccs_context_get_num_parameters,ccs_context_get_parameter,ccs_context_get_parameter_by_name,ccs_context_get_parameter_index_by_name,ccs_context_get_parameters,ccs_context_get_parameter_indexes,ccs_context_validate_value,ccs_context_get_name
void
h_context_access(void)
{
	mk_context(CCS_OBJECT_TYPE_OBJECTIVE_SPACE);
	ccs_context_t   c = (ccs_context_t)CTX;
	size_t          n = 77, i = nd_u64();
	ccs_parameter_t p = NULL, o[4];
	const char     *s = NULL;
	ccs_result_t    r = ccs_context_get_parameter(c, i, &p);
	ccs_datum_t     d = ccs_true;
	if (i < 2)
		v_check(OK(r) && p == PAR + i, "parameter at an index");
	else
		v_check(r == CCS_RESULT_ERROR_OUT_OF_BOUNDS && !p, "index out of bounds");
	VREF = (int)nd_upto(1);
	r    = ccs_context_validate_value(c, i, ccs_int(5), &d);
	if (i >= 2)
		v_check(r == CCS_RESULT_ERROR_OUT_OF_BOUNDS && datum_same(&d, &ccs_true), "index out of bounds");
	else if (VREF)
		v_check(r == CCS_RESULT_ERROR_INVALID_VALUE, "refused");
	else
		v_check(OK(r) && VIDX[0] == i && VARG[0].value.i == 5 && d.value.i == (int64_t)(1000 + i), "validated by its parameter");
	v_check(OK(ccs_context_get_num_parameters(c, &n)) && n == 2, "count");
	for (int l = 0; l < 4; l++) {
		for (int j = 0; j < 4; j++)
			o[j] = PAR + 2;
		n = 77;
		r = ccs_context_get_parameters(c, l, o, &n);
		if (l < 2)
			v_check(r == CCS_RESULT_ERROR_INVALID_VALUE && n == 77 && o[0] == PAR + 2 && o[1] == PAR + 2, "short array refused");
		else
			v_check(OK(r) && n == 2 && o[0] == PAR && o[1] == PAR + 1 && (l > 2 ? !o[2] : o[2] == PAR + 2) && o[3] == PAR + 2, "parameters in order, rest null");
	}
	n = 77;
	v_check(OK(ccs_context_get_parameters(c, 0, NULL, &n)) && n == 2 && ccs_context_get_parameters(c, 0, NULL, NULL) == CCS_RESULT_ERROR_INVALID_VALUE, "count only");
	v_check(OK(ccs_context_get_parameter_by_name(c, "bc", &p)) && p == PAR + 1 && OK(ccs_context_get_parameter_by_name(c, "a", &p)) && p == PAR, "by name");
	v_check(ccs_context_get_parameter_by_name(c, "c", &p) == CCS_RESULT_ERROR_INVALID_NAME && p == PAR, "unknown name");
	v_check(OK(ccs_context_get_parameter_index_by_name(c, "bc", &n)) && n == 1 && ccs_context_get_parameter_index_by_name(c, "b", &n) == CCS_RESULT_ERROR_INVALID_NAME && n == 1, "index by name");
	v_check(OK(ccs_context_get_parameter_index(c, PAR, &n)) && n == 0 && OK(ccs_context_get_parameter_index(c, PAR + 1, &n)) && n == 1 && ccs_context_get_parameter_index(c, PAR + 2, &n) == CCS_RESULT_ERROR_INVALID_PARAMETER && n == 1, "index of a parameter");
	size_t          ix[3] = {7, 7, 7};
	ccs_parameter_t ps[3] = {PAR + 1, PAR, PAR + 1};
	v_check(OK(ccs_context_get_parameter_indexes(c, 3, ps, ix)) && ix[0] == 1 && ix[1] == 0 && ix[2] == 1, "indexes in order");
	ps[1] = PAR + 2;
	v_check(ccs_context_get_parameter_indexes(c, 3, ps, ix) == CCS_RESULT_ERROR_INVALID_PARAMETER, "unknown parameter");
	v_check(OK(ccs_context_get_name(c, &s)) && s == CD[0].name, "name");
	v_check(ccs_context_get_name(NULL, &s) == CCS_RESULT_ERROR_INVALID_OBJECT, "no object");
	V_REACH("end");
}
/* bindings over given contexts, values of given kinds */
static ccs_binding_t X, Y;
static ccs_datum_t XV[2], YV[2];
static int
eqv(const ccs_datum_t *a, const ccs_datum_t *b)
{
	return a->type == b->type && (a->type == CCS_DATA_TYPE_NONE || a->type == CCS_DATA_TYPE_INACTIVE || a->value.i == b->value.i);
}
static void
do_cmp(int k, int face, ccs_data_type_t t0, ccs_data_type_t t1)
{
	kind(k);
	XV[0] = val(t0); YV[0] = val(t0);
	XV[1] = val(t1); YV[1] = val(t1);
	XV[0].flags = XV[1].flags = YV[0].flags = YV[1].flags = 0;
	X = Y = NULL;
	int other = nd_bool();
	if (other)
		v_check(OK(create(CTX + 1, 2, YV, &Y)) && Y, "create");
	else
		v_check(OK(create(CTX, 2, YV, &Y)) && Y, "create");
	v_check(OK(create(CTX, 2, XV, &X)) && X, "create");
	if (face)
		K = 3;
	int        a = 7, b = 7, s = 7;
	v_check(OK(cmp(X, Y, &a)) && OK(cmp(Y, X, &b)) && OK(cmp(X, X, &s)), "comparable");
	v_check((a < 0) == (b > 0) && (a == 0) == (b == 0), "antisymmetric");
	v_check(s == 0, "equal to itself");
	int e = !other && eqv(XV, YV) && eqv(XV + 1, YV + 1);
	v_check((a == 0) == e, "equal exactly when context and all values are");
	v_check(datum_same(X->data->values, XV) && datum_same(X->data->values + 1, XV + 1) && datum_same(Y->data->values, YV) && datum_same(Y->data->values + 1, YV + 1), "operands untouched");
	v_check(cmp(X, NULL, &a) == CCS_RESULT_ERROR_INVALID_OBJECT && cmp(NULL, X, &a) == CCS_RESULT_ERROR_INVALID_OBJECT, "no object");
}
static void
do_hash(int k, int face, ccs_data_type_t t0, ccs_data_type_t t1)
{
	kind(k);
	XV[0] = val(t0);
	XV[1] = val(t1);
	XV[0].flags = XV[1].flags = 0;
	YV[0] = XV[0];
	YV[1] = XV[1];
	X = Y = NULL;
	v_check(OK(create(CTX, 2, XV, &X)) && OK(create(CTX, 2, YV, &Y)), "create");
	if (face)
		K = 3;
	ccs_hash_t h = 1, g = 2;
	v_check(OK(hash(X, &h)) && OK(hash(Y, &g)), "hash");
	v_check(h == g, "equal bindings hash alike");
	v_check(datum_same(X->data->values, XV) && datum_same(X->data->values + 1, XV + 1), "operand untouched");
}
//@unit config_cmp prop=C02 unwind=10 bounded="2 parameters" funcs=ccs_configuration_cmp,_ccs_binding_cmp
void h_config_cmp(void) { do_cmp(0, 0, CCS_DATA_TYPE_INT, CCS_DATA_TYPE_FLOAT); do_cmp(0, 0, CCS_DATA_TYPE_NONE, CCS_DATA_TYPE_BOOL); V_REACH("end"); }
//@unit features_cmp prop=C02 unwind=10 bounded="2 parameters" funcs=ccs_features_cmp,_ccs_binding_cmp
void h_features_cmp(void) { do_cmp(1, 0, CCS_DATA_TYPE_FLOAT, CCS_DATA_TYPE_INT); V_REACH("end"); }
//@unit eval_cmp prop=C02 unwind=10 bounded="2 parameters" funcs=ccs_evaluation_cmp,_ccs_binding_cmp
void h_eval_cmp(void) { do_cmp(2, 0, CCS_DATA_TYPE_INT, CCS_DATA_TYPE_FLOAT); V_REACH("end"); }
//@unit binding_cmp prop=C02 unwind=10 bounded="2 parameters" funcs=ccs_binding_cmp,_ccs_binding_cmp
void h_binding_cmp(void) { do_cmp(0, 1, CCS_DATA_TYPE_INT, CCS_DATA_TYPE_INT); V_REACH("end"); }
//@unit config_hash prop=C02 unwind=10 bounded="2 parameters" funcs=ccs_configuration_hash,_ccs_binding_hash
void h_config_hash(void) { do_hash(0, 0, CCS_DATA_TYPE_INT, CCS_DATA_TYPE_FLOAT); V_REACH("end"); }
//@unit features_hash prop=C02 unwind=10 bounded="2 parameters" funcs=ccs_features_hash,_ccs_binding_hash
void h_features_hash(void) { do_hash(1, 0, CCS_DATA_TYPE_NONE, CCS_DATA_TYPE_BOOL); V_REACH("end"); }
//@unit eval_result prop=C02 unwind=10 bounded="2 parameters" funcs=ccs_evaluation_cmp,ccs_evaluation_set_result,ccs_evaluation_get_result,ccs_evaluation_get_configuration
void
h_eval_result(void)
{
	kind(2);
	ccs_datum_t             v[2] = {ccs_int(nd_i64()), ccs_int(nd_i64())};
	ccs_evaluation_t        x = NULL, y = NULL;
	ccs_evaluation_result_t p = (ccs_evaluation_result_t)nd_i32(), q = (ccs_evaluation_result_t)nd_i32(), o = (ccs_evaluation_result_t)7;
	ccs_configuration_t     c = NULL;
	v_check(OK(ccs_create_evaluation(CTX, &CFG, p, 2, v, &x)) && OK(ccs_create_evaluation(CTX, &CFG, p, 2, v, &y)), "create");
	v_check(OK(ccs_evaluation_get_result(x, &o)) && o == p, "result");
	v_check(OK(ccs_evaluation_set_result(y, q)) && OK(ccs_evaluation_get_result(y, &o)) && o == q, "result set");
	v_check(OK(ccs_evaluation_get_configuration(x, &c)) && c == &CFG, "configuration");
	int a = 7, b = 7;
	v_check(OK(ccs_evaluation_cmp(x, y, &a)) && OK(ccs_evaluation_cmp(y, x, &b)), "comparable");
	v_check((a == 0) == (p == q) && (a < 0) == (b > 0), "equal only with the same result");
	V_REACH("end");
}
