/* Contracts shared by the three kinds of evaluation: the including file names
 * the kind (EV), its source (EV_FILE), its object types and whether it has features. */
#include "vcommon.h"
#include "vhash.h"
#undef HASH_JEN
#ifdef V_CBMC
unsigned __CPROVER_uninterpreted_jen(uint64_t, size_t);
static unsigned
v_jen(const void *k, size_t n)
{
	uint64_t w = 0;
	v_check(n <= 8, "key of at most 8 bytes");
	for (size_t i = 0; i < n; i++)
		w = (w << 8) | ((const unsigned char *)k)[i];
	return __CPROVER_uninterpreted_jen(w, n);
}
#else
static unsigned
v_jen(const void *k, size_t n)
{
	unsigned h = 5381;
	for (size_t i = 0; i < n; i++)
		h = h * 33 + ((const unsigned char *)k)[i];
	return h;
}
#endif
#define HASH_JEN(key, keylen, hashv) ((hashv) = v_jen(key, keylen))
#include "binding_internal.h"
#include "configuration_internal.h"
#include "features_internal.h"
#include "tree_configuration_internal.h"
#include "evaluation_internal.h"
#include "features_evaluation_internal.h"
#include "tree_evaluation_internal.h"
#include "vspec.h"
#include "vobj.h"
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define EV_T CAT(CAT(ccs_, EV), _t)
#define EV_CREATE CAT(ccs_create_, EV)
#define EV_F(f) CAT(CAT(CAT(ccs_, EV), _), f)
#define EV_S CAT(CAT(_ccs_, EV), _s)
#define EV_DS CAT(CAT(_ccs_, EV), _data_s)
#pragma pack(push, 1)
struct blk_eval { struct EV_S o; struct EV_DS d; ccs_datum_t v[2]; };
#pragma pack(pop)
#define V_BLK1 struct blk_eval
#include "valloc.h"
#define OK(r) ((r) == CCS_RESULT_SUCCESS)
/* holders with an identity that stands for their content: equal exactly when
 * the identities are (the contract of their cmp and hash is C02's) */
struct shell { _ccs_object_internal_t obj; void *data; int id; };
static struct shell OS[2], CF[2], FT[2];
#define ID(x) (((struct shell *)(x))->id)
#define STUB(k, T)                                                             \
	ccs_result_t ccs_##k##_cmp(T a, T b, int *r)                           \
	{                                                                      \
		*r = ID(a) < ID(b) ? -1 : ID(a) > ID(b);                       \
		return CCS_RESULT_SUCCESS;                                     \
	}                                                                      \
	ccs_result_t ccs_##k##_hash(T a, ccs_hash_t *r)                        \
	{                                                                      \
		*r = (ccs_hash_t)ID(a);                                        \
		return CCS_RESULT_SUCCESS;                                     \
	}
STUB(configuration, ccs_configuration_t)
STUB(features, ccs_features_t)
STUB(tree_configuration, ccs_tree_configuration_t)
static int VALS, VREF;
static size_t VIDX[4];
ccs_result_t
ccs_objective_space_validate_value(ccs_objective_space_t s, size_t i, ccs_datum_t v, ccs_datum_t *r)
{
	v_check((struct shell *)s == OS || (struct shell *)s == OS + 1, "space");
	v_check(VALS < 4 && i < 2, "at most one validation per value");
	VIDX[VALS++] = i;
	if (VREF == VALS)
		return CCS_RESULT_ERROR_INVALID_VALUE;
	*r = ccs_int(1000 + (int64_t)i);
	return CCS_RESULT_SUCCESS;
}
ccs_result_t
ccs_context_validate_value(ccs_context_t s, size_t i, ccs_datum_t v, ccs_datum_t *r)
{
	return ccs_objective_space_validate_value((ccs_objective_space_t)s, i, v, r);
}
ccs_result_t
ccs_objective_space_get_num_parameters(ccs_objective_space_t s, size_t *n)
{
	*n = 2;
	return CCS_RESULT_SUCCESS;
}
ccs_result_t
ccs_context_get_parameter_index_by_name(ccs_context_t c, const char *n, size_t *i)
{
	if (!strcmp(n, "a") || !strcmp(n, "bc")) {
		*i = n[0] == 'b';
		return CCS_RESULT_SUCCESS;
	}
	return CCS_RESULT_ERROR_INVALID_NAME;
}
ccs_result_t ccs_context_get_parameter_index(ccs_context_t c, ccs_parameter_t p, size_t *i) { return CCS_RESULT_ERROR_INVALID_PARAMETER; }
static size_t CHKN;
static ccs_datum_t *CHKV;
ccs_result_t
ccs_objective_space_check_evaluation_values(ccs_objective_space_t s, size_t n, ccs_datum_t *v, ccs_bool_t *r)
{
	v_check((struct shell *)s == OS, "space");
	CHKN = n;
	CHKV = v;
	*r = CCS_FALSE;
	return CCS_RESULT_SUCCESS;
}
/* objectives: up to 3 expressions, a direction each, and a value per evaluation */
#define NOBJ 3
static struct shell EX[NOBJ];
static size_t NO;
static ccs_objective_type_t DIR[NOBJ];
static ccs_datum_t OV[2][NOBJ];
static int OERR[2][NOBJ];
static ccs_datum_t *OWN[2];
ccs_result_t
ccs_objective_space_get_objective(ccs_objective_space_t s, size_t i, ccs_expression_t *e, ccs_objective_type_t *t)
{
	v_check((struct shell *)s == OS, "space");
	if (i >= NO)
		return CCS_RESULT_ERROR_OUT_OF_BOUNDS;
	*e = (ccs_expression_t)(EX + i);
	*t = DIR[i];
	return CCS_RESULT_SUCCESS;
}
ccs_result_t
ccs_objective_space_get_objectives(ccs_objective_space_t s, size_t n, ccs_expression_t *e, ccs_objective_type_t *t, size_t *r)
{
	v_check((struct shell *)s == OS, "space");
	v_check(n <= NOBJ, "array");
	for (size_t i = 0; e && i < n; i++) {
		e[i] = i < NO ? (ccs_expression_t)(EX + i) : NULL;
		t[i] = DIR[i];
	}
	if (r)
		*r = NO;
	return CCS_RESULT_SUCCESS;
}
ccs_result_t
ccs_expression_eval(ccs_expression_t e, ccs_context_t c, ccs_datum_t *v, ccs_datum_t *r)
{
	v_check((struct shell *)c == OS, "evaluated in the objective space");
	v_check(v == OWN[0] || v == OWN[1], "evaluated over the evaluation's values");
	int k = v == OWN[1];
	for (int i = 0; i < NOBJ; i++)
		if ((struct shell *)e == EX + i) {
			if (OERR[k][i])
				return CCS_RESULT_ERROR_INVALID_VALUE;
			*r = OV[k][i];
			return CCS_RESULT_SUCCESS;
		}
	v_check(0, "an objective's expression");
	return CCS_RESULT_ERROR_INVALID_VALUE;
}
#include EV_FILE
static void
shells(void)
{
	for (int i = 0; i < 2; i++) {
		mk_shell(OS + i, CCS_OBJECT_TYPE_OBJECTIVE_SPACE, NULL, OS);
		mk_shell(CF + i, CFT, NULL, CF);
		mk_shell(FT + i, CCS_OBJECT_TYPE_FEATURES, NULL, FT);
		OS[i].obj.refcount = 3;
		CF[i].obj.refcount = 5;
		FT[i].obj.refcount = 7;
		CF[i].id = FT[i].id = 0;
	}
	VALS = VREF = 0;
}
static ccs_result_t
mk(struct shell *o, struct shell *c, struct shell *f, ccs_evaluation_result_t r, size_t n, ccs_datum_t *v, EV_T *e)
{
#if FEAT
	return EV_CREATE((ccs_objective_space_t)o, (void *)c, (ccs_features_t)f, r, n, v, e);
#else
	return EV_CREATE((ccs_objective_space_t)o, (void *)c, r, n, v, e);
#endif
}
static int
refs(int n)
{
	return OS[0].obj.refcount == 3 + n && CF[0].obj.refcount == 5 + n && FT[0].obj.refcount == 7 + (FEAT ? n : 0);
}
static ccs_datum_t
val(ccs_data_type_t t)
{
	ccs_datum_t d = ccs_none;
	d.type        = t;
	if (t == CCS_DATA_TYPE_FLOAT)
		d.value.f = nd_f64();
	else
		d.value.i = nd_i64();
	d.flags = nd_bool() ? CCS_DATUM_FLAG_TRANSIENT : CCS_DATUM_FLAG_DEFAULT;
	return d;
}
static void
t_create(void)
{
	shells();
	ccs_datum_t v[3] = {val(CCS_DATA_TYPE_INT), val(CCS_DATA_TYPE_FLOAT), ccs_true}, v0[3];
	EV_T        b    = NULL;
	for (int i = 0; i < 3; i++)
		v0[i] = v[i];
	v_check(mk(NULL, CF, FT, CCS_RESULT_SUCCESS, 2, v, &b) == CCS_RESULT_ERROR_INVALID_OBJECT && mk(OS, NULL, FT, CCS_RESULT_SUCCESS, 2, v, &b) == CCS_RESULT_ERROR_INVALID_OBJECT && (!FEAT || mk(OS, CF, NULL, CCS_RESULT_SUCCESS, 2, v, &b) == CCS_RESULT_ERROR_INVALID_OBJECT), "missing object");
	v_check(mk(OS, CF, FT, CCS_RESULT_SUCCESS, 2, v, NULL) == CCS_RESULT_ERROR_INVALID_VALUE && mk(OS, CF, FT, CCS_RESULT_SUCCESS, 2, NULL, &b) == CCS_RESULT_ERROR_INVALID_VALUE, "missing argument");
	v_check(mk(OS, CF, FT, CCS_RESULT_SUCCESS, 3, v, &b) == CCS_RESULT_ERROR_INVALID_VALUE && mk(OS, CF, FT, CCS_RESULT_SUCCESS, 1, v, &b) == CCS_RESULT_ERROR_INVALID_VALUE && !b, "wrong number of values");
	v_check(refs(0), "references unchanged by a refused creation");
	V_OOM = nd_bool();
	VREF  = (int)nd_upto(2);
	ccs_evaluation_result_t res = (ccs_evaluation_result_t)nd_i32(), o = (ccs_evaluation_result_t)5;
	ccs_result_t r  = mk(OS, CF, FT, res, 2, v, &b);
	int          t0 = v0[0].flags != 0, t1 = v0[1].flags != 0;
	for (int i = 0; i < 3; i++)
		v_check(datum_same(v + i, v0 + i), "given values untouched");
	if (!OK(r)) {
		v_check(!b && refs(0), "a failed creation leaves references unchanged");
		v_check((r == CCS_RESULT_ERROR_OUT_OF_MEMORY && V_OOM) || (r == CCS_RESULT_ERROR_INVALID_VALUE && VREF > 0 && VREF <= t0 + t1), "fails only without memory or on a refused value");
		return;
	}
	v_check(b->obj.type == EVTYPE && b->obj.refcount == 1 && refs(1), "a new object with one reference to each object kept");
	v_check(!(VREF > 0 && VREF <= t0 + t1), "a refused value refuses the creation");
	v_check(VALS == t0 + t1 && (!t0 || VIDX[0] == 0) && (!t1 || VIDX[t0] == 1), "transient values validated");
	v[0].value.i = v[1].value.i = 77;
	for (int i = 0; i < 2; i++) {
		ccs_datum_t x = ccs_true;
		v_check(OK(EV_F(get_value)(b, i, &x)), "get");
		if (v0[i].flags)
			v_check(x.type == CCS_DATA_TYPE_INT && x.value.i == 1000 + i && !(x.flags & CCS_DATUM_FLAG_TRANSIENT), "the space's copy of a transient value");
		else
			v_check(datum_same(&x, v0 + i), "given value");
	}
	ccs_objective_space_t os = NULL;
	void                 *c  = NULL;
	v_check(OK(EV_F(get_objective_space)(b, &os)) && (struct shell *)os == OS, "objective space");
	v_check(OK(EV_F(get_configuration)(b, (void *)&c)) && c == CF, "configuration");
#if FEAT
	ccs_features_t f = NULL;
	v_check(OK(EV_F(get_features)(b, &f)) && (struct shell *)f == FT, "features");
#endif
	v_check(OK(EV_F(get_result)(b, &o)) && o == res, "result");
	v_check(OK(EV_F(set_result)(b, (ccs_evaluation_result_t)-9)) && OK(EV_F(get_result)(b, &o)) && (int)o == -9, "result set");
	ccs_bool_t ok = 7;
	v_check(OK(EV_F(check)(b, &ok)) && ok == CCS_FALSE && CHKN == 2 && CHKV == b->data->values, "checked by its space");
	v_check(OK(b->obj.ops->del(b)) && refs(0), "references given back");
	free(b);
}
static void
t_access(void)
{
	shells();
	ccs_datum_t V0[2] = {val(CCS_DATA_TYPE_INT), val(CCS_DATA_TYPE_FLOAT)}, o[4], x = ccs_true;
	V0[0].flags = V0[1].flags = 0;
	EV_T B = NULL;
	v_check(OK(mk(OS, CF, FT, CCS_RESULT_SUCCESS, 2, V0, &B)) && B, "create");
	size_t       n = 77, i = nd_u64();
	ccs_result_t r = EV_F(get_value)(B, i, &x);
	if (i < 2)
		v_check(OK(r) && datum_same(&x, V0 + i), "value at an index");
	else
		v_check(r == CCS_RESULT_ERROR_OUT_OF_BOUNDS && datum_same(&x, &ccs_true), "index out of bounds");
	v_check(EV_F(get_value)(NULL, 0, &x) == CCS_RESULT_ERROR_INVALID_OBJECT && EV_F(get_value)(B, 0, NULL) == CCS_RESULT_ERROR_INVALID_VALUE, "bad arguments");
	for (int l = 0; l < 4; l++) {
		for (int j = 0; j < 4; j++)
			o[j] = ccs_true;
		n = 77;
		r = EV_F(get_values)(B, l, o, &n);
		if (l < 2)
			v_check(r == CCS_RESULT_ERROR_INVALID_VALUE && n == 77 && datum_same(o, &ccs_true) && datum_same(o + 1, &ccs_true), "short array refused untouched");
		else
			v_check(OK(r) && n == 2 && datum_same(o, V0) && datum_same(o + 1, V0 + 1) && (l > 2 ? is_none(o + 2) : datum_same(o + 2, &ccs_true)) && datum_same(o + 3, &ccs_true), "values, rest none");
	}
	n = 77;
	v_check(OK(EV_F(get_values)(B, 0, NULL, &n)) && n == 2 && EV_F(get_values)(B, 0, NULL, NULL) == CCS_RESULT_ERROR_INVALID_VALUE, "count only");
	v_check(OK(EV_F(get_value_by_name)(B, "bc", &x)) && datum_same(&x, V0 + 1), "by name");
	x = ccs_true;
	v_check(EV_F(get_value_by_name)(B, "b", &x) == CCS_RESULT_ERROR_INVALID_NAME && datum_same(&x, &ccs_true), "unknown name");
	ccs_datum_t w = val(CCS_DATA_TYPE_INT), m = ccs_int(1000 + (i == 1));
	VREF = (int)nd_upto(1);
	r    = EV_F(set_value)(B, i, w);
	if (i >= 2)
		v_check(r == CCS_RESULT_ERROR_OUT_OF_BOUNDS, "index out of bounds");
	else if (w.flags && VREF)
		v_check(r == CCS_RESULT_ERROR_INVALID_VALUE, "refused");
	else {
		v_check(OK(r), "set");
		V0[i] = w.flags ? m : w;
	}
	v_check(datum_same(B->data->values, V0) && datum_same(B->data->values + 1, V0 + 1), "only that value changes");
}
static void
t_cmp(void)
{
	shells();
	CF[1].id = (int)nd_upto(1);
	FT[1].id = (int)nd_upto(1);
	int         os = nd_bool();
	ccs_datum_t xv[2] = {val(CCS_DATA_TYPE_INT), val(CCS_DATA_TYPE_FLOAT)}, yv[2] = {val(CCS_DATA_TYPE_INT), val(CCS_DATA_TYPE_FLOAT)};
	xv[0].flags = xv[1].flags = yv[0].flags = yv[1].flags = 0;
	ccs_evaluation_result_t p = (ccs_evaluation_result_t)nd_i32(), q = (ccs_evaluation_result_t)nd_i32();
	EV_T x = NULL, y = NULL;
	v_check(OK(mk(OS, CF, FT, p, 2, xv, &x)), "create");
	if (os)
		v_check(OK(mk(OS + 1, CF + 1, FT + 1, q, 2, yv, &y)), "create");
	else
		v_check(OK(mk(OS, CF + 1, FT + 1, q, 2, yv, &y)), "create");
	int a = 7, b = 7, s = 7;
	v_check(OK(EV_F(cmp)(x, y, &a)) && OK(EV_F(cmp)(y, x, &b)) && OK(EV_F(cmp)(x, x, &s)), "comparable");
	v_check((a < 0) == (b > 0) && (a == 0) == (b == 0) && s == 0, "antisymmetric");
	v_check((a == 0) == (!os && xv[0].value.i == yv[0].value.i && xv[1].value.i == yv[1].value.i && p == q && CF[1].id == 0 && (!FEAT || FT[1].id == 0)), "equal exactly when all their parts are");
	v_check(EV_F(cmp)(x, NULL, &a) == CCS_RESULT_ERROR_INVALID_OBJECT, "no object");
}
static void
t_hash(void)
{
	shells();
	ccs_datum_t             v[2] = {val(CCS_DATA_TYPE_BOOL), ccs_none};
	v[0].flags = 0;
	EV_T       x = NULL, y = NULL;
	ccs_hash_t h = 1, g = 2;
	ccs_evaluation_result_t p = (ccs_evaluation_result_t)nd_i32();
	v_check(OK(mk(OS, CF, FT, p, 2, v, &x)) && OK(mk(OS, CF + 1, FT + 1, p, 2, v, &y)), "create");
	v_check(OK(EV_F(hash)(x, &h)) && OK(EV_F(hash)(y, &g)) && h == g, "equal evaluations hash alike");
}
/* objective values of arbitrary kinds */
static ccs_datum_t
ov(void)
{
	ccs_datum_t d = ccs_none;
	int         k = (int)nd_upto(4);
	if (k == 1) {
		d.type    = CCS_DATA_TYPE_INT;
		d.value.i = nd_i64();
	} else if (k == 2) {
		d.type    = CCS_DATA_TYPE_FLOAT;
		d.value.f = nd_f64();
		v_assume(!v_isnan(d.value.f));
	} else if (k == 3) {
		d.type    = CCS_DATA_TYPE_BOOL;
		d.value.i = nd_bool();
	} else if (k == 4)
		d.type = CCS_DATA_TYPE_INACTIVE;
	return d;
}
static EV_T X, Y;
static void
objectives(int errors)
{
	NO = nd_upto(NOBJ);
	for (int i = 0; i < NOBJ; i++) {
		mk_shell(EX + i, CCS_OBJECT_TYPE_EXPRESSION, NULL, EX);
		DIR[i] = nd_bool() ? CCS_OBJECTIVE_TYPE_MAXIMIZE : CCS_OBJECTIVE_TYPE_MINIMIZE;
		for (int k = 0; k < 2; k++) {
			OV[k][i]   = ov();
			OERR[k][i] = errors ? nd_bool() : 0;
		}
	}
	X = Y = NULL;
	shells();
	v_check(OK(mk(OS, CF, FT, CCS_RESULT_SUCCESS, 0, NULL, &X)) && OK(mk(OS, CF + 1, FT + 1, CCS_RESULT_SUCCESS, 0, NULL, &Y)), "create");
	OWN[0] = X->data->values;
	OWN[1] = Y->data->values;
}
static int
num(const ccs_datum_t *d)
{
	return d->type == CCS_DATA_TYPE_INT || d->type == CCS_DATA_TYPE_FLOAT;
}
static void
t_compare(void)
{
	objectives(0);
	FT[1].id = nd_bool();
	int bad = 0, better = 0, worse = 0;
	for (size_t i = 0; i < NOBJ; i++) {
		if (i >= NO)
			break;
		const ccs_datum_t *a = &OV[0][i], *b = &OV[1][i];
		if (!num(a) || a->type != b->type) {
			bad = 1;
			continue;
		}
		int lt = a->type == CCS_DATA_TYPE_INT ? a->value.i < b->value.i : a->value.f < b->value.f;
		int gt = a->type == CCS_DATA_TYPE_INT ? a->value.i > b->value.i : a->value.f > b->value.f;
		better |= DIR[i] == CCS_OBJECTIVE_TYPE_MINIMIZE ? lt : gt;
		worse |= DIR[i] == CCS_OBJECTIVE_TYPE_MINIMIZE ? gt : lt;
	}
	ccs_comparison_t e = bad || (better && worse) || (FEAT && FT[1].id) ? CCS_COMPARISON_NOT_COMPARABLE : better ? CCS_COMPARISON_BETTER : worse ? CCS_COMPARISON_WORSE : CCS_COMPARISON_EQUIVALENT;
	ccs_comparison_t m = e == CCS_COMPARISON_BETTER ? CCS_COMPARISON_WORSE : e == CCS_COMPARISON_WORSE ? CCS_COMPARISON_BETTER : e;
	ccs_comparison_t r = (ccs_comparison_t)7, s = (ccs_comparison_t)7;
	v_check(OK(EV_F(compare)(X, Y, &r)) && r == e, "Pareto order of the objectives");
	v_check(OK(EV_F(compare)(Y, X, &s)) && s == m, "mirrored");
}
static void
t_compare_refuse(void)
{
	objectives(1);
	int err = 0;
	for (size_t i = 0; i < NOBJ; i++)
		err |= i < NO && (OERR[0][i] || OERR[1][i]);
	ccs_comparison_t r = (ccs_comparison_t)7;
	ccs_result_t     e = EV_F(compare)(X, Y, &r);
	v_check(OK(e) || err, "an error only from an objective");
	v_check(!(NO == 1 && err && OK(e)), "the error of an objective is reported");
	v_check(OK(EV_F(compare)(X, X, &r)) && r == CCS_COMPARISON_EQUIVALENT, "equivalent to itself");
	v_check(EV_F(compare)(X, NULL, &r) == CCS_RESULT_ERROR_INVALID_OBJECT && EV_F(compare)(NULL, X, &r) == CCS_RESULT_ERROR_INVALID_OBJECT && EV_F(compare)(X, Y, NULL) == CCS_RESULT_ERROR_INVALID_VALUE, "bad arguments");
	ccs_evaluation_result_t p = (ccs_evaluation_result_t)nd_i32();
	v_assume(p != 0);
	v_check(OK(EV_F(set_result)(Y, p)), "set");
	v_check(EV_F(compare)(X, Y, &r) == CCS_RESULT_ERROR_INVALID_OBJECT && EV_F(compare)(Y, X, &r) == CCS_RESULT_ERROR_INVALID_OBJECT, "failed evaluations are refused");
	EV_T z = NULL;
	v_check(OK(mk(OS + 1, CF, FT, CCS_RESULT_SUCCESS, 0, NULL, &z)), "create");
	v_check(EV_F(compare)(X, z, &r) == CCS_RESULT_ERROR_INVALID_OBJECT && EV_F(compare)(z, X, &r) == CCS_RESULT_ERROR_INVALID_OBJECT, "different objective spaces are refused");
}
static void
t_objectives(void)
{
	objectives(0);
	size_t      i = nd_u64(), l = nd_upto(NOBJ + 1), n = 77;
	ccs_datum_t x = ccs_true, o[NOBJ + 2];
	ccs_result_t r = EV_F(get_objective_value)(X, i, &x);
	if (i < NO)
		v_check(OK(r) && datum_same(&x, &OV[0][i]), "value of an objective");
	else
		v_check(r == CCS_RESULT_ERROR_OUT_OF_BOUNDS && datum_same(&x, &ccs_true), "no such objective");
	for (int j = 0; j < NOBJ + 2; j++)
		o[j] = ccs_true;
	r = EV_F(get_objective_values)(X, l, o, &n);
	if (l < NO) {
		v_check(r == CCS_RESULT_ERROR_INVALID_VALUE && n == 77, "short array refused");
		for (int j = 0; j < NOBJ + 2; j++)
			v_check(datum_same(o + j, &ccs_true), "untouched when refused");
	} else {
		v_check(OK(r) && n == NO, "count");
		for (size_t j = 0; j < NOBJ + 2; j++)
			v_check(j < NO ? datum_same(o + j, &OV[0][j < NOBJ ? j : 0]) : j < l ? is_none(o + j) : datum_same(o + j, &ccs_true), "values in order, rest none, nothing beyond");
	}
	n = 77;
	v_check(OK(EV_F(get_objective_values)(X, 0, NULL, &n)) && n == NO && EV_F(get_objective_values)(X, 0, NULL, NULL) == CCS_RESULT_ERROR_INVALID_VALUE && EV_F(get_objective_values)(X, 1, NULL, &n) == CCS_RESULT_ERROR_INVALID_VALUE, "count only");
	v_check(EV_F(get_objective_value)(X, 0, NULL) == CCS_RESULT_ERROR_INVALID_VALUE && EV_F(get_objective_values)(NULL, 0, NULL, &n) == CCS_RESULT_ERROR_INVALID_OBJECT, "bad arguments");
}
