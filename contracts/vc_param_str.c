/* Contracts for src/parameter_string.c, and the string values of
 * src/parameter_categorical.c, through the entry points of src/parameter.c. */
//@property C07
//@assume uthash is replaced by its abstract contract (include/vhash.h): a finite map over the key comparator in insertion order; that equal values have equal hashes is C02
//@assume string contents are fixed samples in these units (the code treats them through strlen/strcpy/strcmp only)
#include "vcommon.h"
#include "parameter_internal.h"
#define V_HASH_OOM (HOOM && nd_bool())
static int HOOM;
#include "datum_uthash.h"
#include "vhash.h"
#include "datum_hash.h"
#include "vspec.h"
#pragma pack(push, 1)
struct blk_str {
	struct _ccs_parameter_s p;
	struct { _ccs_parameter_common_data_t c; _ccs_hash_datum_t *h; } d;
	char name[3];
};
struct blk_cat {
	struct _ccs_parameter_s p;
	struct { _ccs_parameter_common_data_t c; size_t n; _ccs_hash_datum_t *v, *h; } d;
	_ccs_hash_datum_t v[3];
	char s[7];
};
struct blk_hd2 { _ccs_hash_datum_t h; char s[2]; };
struct blk_hd3 { _ccs_hash_datum_t h; char s[3]; };
#pragma pack(pop)
#define V_BLK1 struct blk_str
#define V_BLK2 struct blk_cat
#define V_BLK3 struct blk_hd2
#define V_BLK4 struct blk_hd3
#define V_BLK5 _ccs_hash_datum_t
#include "valloc.h"
#include "parameter_string.c"
#include "parameter_categorical.c"
#include "parameter.c"
ccs_result_t
ccs_create_uniform_distribution(ccs_numeric_type_t t, ccs_numeric_t lo, ccs_numeric_t up, ccs_scale_type_t s, ccs_numeric_t q, ccs_distribution_t *d)
{
	return CCS_RESULT_ERROR_INVALID_VALUE;
}
ccs_result_t
ccs_distribution_check_oversampling(ccs_distribution_t d, ccs_interval_t *I, ccs_bool_t *ret)
{
	return CCS_RESULT_ERROR_INVALID_VALUE;
}
ccs_result_t
ccs_distribution_samples(ccs_distribution_t d, ccs_rng_t r, size_t num, ccs_numeric_t *v)
{
	return CCS_RESULT_ERROR_INVALID_VALUE;
}
static _ccs_object_template_t DOBJ, ROBJ;
static ccs_parameter_t P;
static int
seq(const char *a, const char *b)
{
	return a == b || (a && b && !strcmp(a, b));
}
/* a string datum */
static ccs_datum_t
str(const char *s)
{
	ccs_datum_t d = ccs_none;
	d.type        = CCS_DATA_TYPE_STRING;
	d.value.s     = s;
	return d;
}
static void
del(void)
{
	v_check(P->obj.ops->del(P) == CCS_RESULT_SUCCESS, "del");
	free(P);
}
//@unit str_create prop=C07,C14 unwind=5 bounded="sample names" funcs=ccs_create_string_parameter,ccs_parameter_get_type,ccs_parameter_get_name,ccs_parameter_get_default_value flags="--memory-leak-check"
void
h_str_create(void)
{
	char                 nm[3] = "ab";
	const char          *n     = NULL;
	ccs_parameter_type_t t;
	ccs_datum_t          d = ccs_true;
	P                      = NULL;
	v_check(ccs_create_string_parameter(NULL, &P) == CCS_RESULT_ERROR_INVALID_VALUE && !P, "NULL name");
	v_check(ccs_create_string_parameter(nm, NULL) == CCS_RESULT_ERROR_INVALID_VALUE, "NULL result");
	V_OOM          = nd_bool();
	ccs_result_t r = ccs_create_string_parameter(nm, &P);
	nm[0]          = 'x';
	if (r != CCS_RESULT_SUCCESS) {
		v_check(r == CCS_RESULT_ERROR_OUT_OF_MEMORY && V_OOM && !P, "fails only without memory");
		V_REACH("oom");
		return;
	}
	v_check(P->obj.type == CCS_OBJECT_TYPE_PARAMETER && P->obj.refcount == 1, "kind");
	v_check(ccs_parameter_get_type(P, &t) == CCS_RESULT_SUCCESS && t == CCS_PARAMETER_TYPE_STRING, "type");
	v_check(ccs_parameter_get_name(P, &n) == CCS_RESULT_SUCCESS && !strcmp(n, "ab"), "own copy of the name");
	v_check(ccs_parameter_get_default_value(P, &d) == CCS_RESULT_SUCCESS && is_none(&d), "no default");
	del();
	V_REACH("end");
}
static int OK_, RET_;
static void
str_check(int ret, int hoom)
{
	static char a1[3] = "ab", a2[3] = "ab", b1[2] = "c";
	ccs_datum_t v[4]  = {str(a1), str(a2), ccs_int(nd_i64()), str(b1)};
	ccs_datum_t o[5];
	ccs_bool_t  res[5];
	const size_t n = 4;
	P             = NULL;
	for (int i = 0; i < 5; i++) {
		o[i]   = ccs_true;
		res[i] = 7;
	}
	v_check(ccs_create_string_parameter("ab", &P) == CCS_RESULT_SUCCESS, "create");
	V_OOM = HOOM   = hoom;
	ccs_result_t r = ret ? ccs_parameter_validate_values(P, n, v, o, res) : ccs_parameter_check_values(P, n, v, res);
	V_OOM = HOOM = 0;
	OK_  = r == CCS_RESULT_SUCCESS && n == 4;
	RET_ = ret;
	v_check(r == CCS_RESULT_SUCCESS || (ret && r == CCS_RESULT_ERROR_OUT_OF_MEMORY && hoom), "fails only without memory");
	/* the caller's strings may change or go away after the call */
	a1[0] = 'x'; a2[0] = 'y'; b1[0] = 'z';
	if (r == CCS_RESULT_SUCCESS)
		for (size_t i = 0; i < 5; i++) {
			v_check(res[i] == (i >= n ? 7 : i == 2 ? CCS_FALSE : CCS_TRUE), "strings and only strings accepted");
			if (i >= n || !ret)
				v_check(o[i].type == CCS_DATA_TYPE_BOOL && o[i].value.i == 1, "nothing else written");
			else if (i == 2)
				v_check(is_inactive(&o[i]), "inactive");
			else
				v_check(o[i].type == CCS_DATA_TYPE_STRING && o[i].flags == CCS_DATUM_FLAG_DEFAULT && seq(o[i].value.s, i == 3 ? "c" : "ab"), "validated value is an own copy");
		}
	if (r == CCS_RESULT_SUCCESS && ret && n >= 2)
		v_check(o[0].value.s == o[1].value.s, "one copy per content");
	del();
}
//@unit str_check unwind=10 bounded="a batch of 4 values" funcs=ccs_parameter_check_values,ccs_parameter_validate_values,_ccs_parameter_string_check_values,_ccs_parameter_string_del flags="--memory-leak-check"
void
h_str_check(void)
{
	str_check(nd_bool(), 0);
	if (OK_ && RET_) V_REACH("validated");
	if (OK_ && !RET_) V_REACH("checked");
}
//@unit str_check_oom prop=C12 unwind=10 bounded="a batch of 4 values, any allocation failing" funcs=_ccs_parameter_string_check_values,_ccs_parameter_string_del flags="--memory-leak-check"
void
h_str_check_oom(void)
{
	str_check(1, 1);
	V_REACH("end");
}
//@unit str_check_null unwind=10 bounded="sample batches" funcs=_ccs_parameter_string_check_values flags="--memory-leak-check"
void
h_str_check_null(void)
{
	ccs_datum_t v[3] = {str(NULL), str(""), str(NULL)}, o[3], o1 = ccs_true;
	ccs_bool_t  res[3] = {7, 7, 7}, r1 = 7;
	v_check(ccs_create_string_parameter("ab", &P) == CCS_RESULT_SUCCESS, "create");
	v_check(ccs_parameter_validate_values(P, 3, v, o, res) == CCS_RESULT_SUCCESS, "validate");
	for (int i = 0; i < 3; i++)
		v_check(res[i] == CCS_TRUE && o[i].type == CCS_DATA_TYPE_STRING, "accepted");
	v_check(!o[0].value.s && !o[2].value.s && o[1].value.s && !o[1].value.s[0], "NULL string and empty string kept apart");
	const ccs_data_type_t kinds[] = {CCS_DATA_TYPE_NONE, CCS_DATA_TYPE_INT, CCS_DATA_TYPE_FLOAT, CCS_DATA_TYPE_BOOL, CCS_DATA_TYPE_INACTIVE, CCS_DATA_TYPE_OBJECT};
	for (int i = 0; i < 6; i++) {
		ccs_datum_t k = ccs_int(nd_i64());
		k.type        = kinds[i];
		v_check(ccs_parameter_validate_value(P, k, &o1, &r1) == CCS_RESULT_SUCCESS && r1 == CCS_FALSE && is_inactive(&o1), "other kinds refused");
		r1 = 7;
		v_check(ccs_parameter_check_value(P, k, &r1) == CCS_RESULT_SUCCESS && r1 == CCS_FALSE, "other kinds refused");
	}
	v_check(ccs_parameter_check_value(P, v[1], &r1) == CCS_RESULT_SUCCESS && r1 == CCS_TRUE, "string accepted");
	del();
	V_REACH("end");
}
//@unit str_sample prop=C08 unwind=5 funcs=_ccs_parameter_string_samples,_ccs_parameter_string_get_default_distribution,_ccs_parameter_string_convert_samples
void
h_str_sample(void)
{
	ccs_datum_t        o[2] = {ccs_true, ccs_true};
	ccs_numeric_t      x[2];
	ccs_distribution_t d = NULL;
	mk_shell(&DOBJ, CCS_OBJECT_TYPE_DISTRIBUTION, NULL, &DOBJ);
	mk_shell(&ROBJ, CCS_OBJECT_TYPE_RNG, NULL, &DOBJ);
	v_check(ccs_create_string_parameter("ab", &P) == CCS_RESULT_SUCCESS, "create");
	v_check(ccs_parameter_samples(P, (ccs_distribution_t)&DOBJ, (ccs_rng_t)&ROBJ, 2, o) == CCS_RESULT_ERROR_UNSUPPORTED_OPERATION, "not sampled");
	v_check(ccs_parameter_sample(P, (ccs_distribution_t)&DOBJ, (ccs_rng_t)&ROBJ, o) == CCS_RESULT_ERROR_UNSUPPORTED_OPERATION, "not sampled");
	v_check(ccs_parameter_convert_samples(P, nd_bool(), 2, x, o) == CCS_RESULT_ERROR_UNSUPPORTED_OPERATION, "not converted");
	v_check(ccs_parameter_get_default_distribution(P, &d) == CCS_RESULT_ERROR_UNSUPPORTED_OPERATION && !d, "no distribution");
	v_check(o[0].type == CCS_DATA_TYPE_BOOL && o[1].type == CCS_DATA_TYPE_BOOL, "outputs untouched");
	V_REACH("end");
}
//@unit cat_str unwind=10 bounded="sample list of two strings and an integer" funcs=ccs_create_categorical_parameter,_ccs_create_categorical_parameter,_ccs_parameter_categorical_check_values flags="--memory-leak-check"
void
h_cat_str(void)
{
	static char a[3] = "a", b[3] = "b", q[3] = "b";
	ccs_datum_t v[3] = {str(a), ccs_int(5), str(b)}, o[4], c[4], g[3];
	ccs_bool_t  res[4];
	size_t      di = nd_upto(2);
	ccs_datum_t dv;
	v_check(ccs_create_categorical_parameter("ab", 3, v, di, &P) == CCS_RESULT_SUCCESS, "create");
	a[0] = 'x'; b[0] = 'y';
	c[0] = str(q); c[1] = str("a"); c[2] = ccs_int(5); c[3] = str("x");
	v_check(ccs_parameter_validate_values(P, 4, c, o, res) == CCS_RESULT_SUCCESS, "validate");
	q[0] = 'z';
	v_check(res[0] && res[1] && res[2] && !res[3], "accepted iff listed, by content");
	v_check(!strcmp(o[0].value.s, "b") && !strcmp(o[1].value.s, "a") && o[2].value.i == 5 && is_inactive(&o[3]), "validated values are the parameter's own");
	v_check(ccs_categorical_parameter_get_values(P, 3, g, NULL) == CCS_RESULT_SUCCESS, "values");
	v_check(g[0].value.s == o[1].value.s && g[2].value.s == o[0].value.s && g[1].value.i == 5, "values in order");
	v_check(ccs_parameter_get_default_value(P, &dv) == CCS_RESULT_SUCCESS && dv.type == g[di].type && (di == 1 ? dv.value.i == 5 : dv.value.s == g[di].value.s), "default");
	del();
	V_REACH("end");
}
//@unit cat_str_dup unwind=10 bounded="sample lists" funcs=_ccs_create_categorical_parameter flags="--memory-leak-check"
void
h_cat_str_dup(void)
{
	static char a[3] = "a", b[3] = "a";
	ccs_datum_t v[3] = {str(a), ccs_int(5), str(b)};
	P                = NULL;
	v_check(ccs_create_ordinal_parameter("ab", 3, v, 0, &P) == CCS_RESULT_ERROR_INVALID_VALUE && !P, "duplicate content refused");
	v[0].value.s = NULL;
	v_check(ccs_create_ordinal_parameter("ab", 3, v, 0, &P) == CCS_RESULT_ERROR_INVALID_VALUE && !P, "NULL string refused");
	V_REACH("end");
}
