/* Contracts for src/parameter_categorical.c (categorical, ordinal, discrete)
 * and src/parameter_string.c through the entry points of src/parameter.c. */
//@property C07
//@assume uthash is replaced by its abstract contract (include/vhash.h): a finite map over the key comparator in insertion order; that equal values have equal hashes is C02
#include "vcommon.h"
#include "parameter_internal.h"
#define V_HASH_OOM (HOOM)
static int HOOM;
#include "datum_uthash.h"
/* equality of values: same kind, same content; none has no content */
static int
veq(const ccs_datum_t *a, const ccs_datum_t *b)
{
	if (a->type != b->type)
		return 0;
	if (a->type == CCS_DATA_TYPE_NONE || a->type == CCS_DATA_TYPE_INACTIVE)
		return 1;
	return a->value.i == b->value.i;
}
#define V_DATUM_EQ(a, b) veq(a, b)
#include "vhash.h"
#include "datum_hash.h"
#include "vspec.h"
#ifndef NP
#define NP 3
#endif
#define NV 3
#pragma pack(push, 1)
struct blk_cat {
	struct _ccs_parameter_s p;
	struct { _ccs_parameter_common_data_t c; size_t n; _ccs_hash_datum_t *v, *h; } d;
	_ccs_hash_datum_t v[NP];
	char name[3];
};
#pragma pack(pop)
#define V_BLK1 struct blk_cat
#include "valloc.h"

#include "parameter_categorical.c"
#include "parameter.c"

static struct { ccs_distribution_t d; } DUMMY;
static _ccs_object_template_t DOBJ, ROBJ;
static size_t      CALLS, MAXCALLS;
static ccs_bool_t  OVER;
static int         NEVER;
static ccs_datum_t PV[NP], PV0[NP];
static ccs_parameter_t P;
static ccs_parameter_type_t T;

ccs_result_t
ccs_create_uniform_distribution(ccs_numeric_type_t t, ccs_numeric_t lo, ccs_numeric_t up, ccs_scale_type_t s, ccs_numeric_t q, ccs_distribution_t *d)
{
	v_check(t == CCS_NUMERIC_TYPE_INT && lo.i == 0 && up.i == NP && s == CCS_SCALE_TYPE_LINEAR && q.i == 0, "default distribution covers every value once");
	*d = (ccs_distribution_t)&DOBJ;
	return CCS_RESULT_SUCCESS;
}
ccs_result_t
ccs_distribution_check_oversampling(ccs_distribution_t d, ccs_interval_t *I, ccs_bool_t *ret)
{
	v_check(I->type == CCS_NUMERIC_TYPE_INT && I->lower.i == 0 && I->upper.i == NP && I->lower_included && !I->upper_included, "oversampling tested against the index range");
	*ret = OVER;
	return CCS_RESULT_SUCCESS;
}
static int64_t RAW[16];
static size_t  NRAW;
ccs_result_t
ccs_distribution_samples(ccs_distribution_t d, ccs_rng_t r, size_t num, ccs_numeric_t *v)
{
	v_check((void *)d == (void *)&DOBJ && (void *)r == (void *)&ROBJ, "samples the given distribution with the given generator");
	if (CALLS++ >= MAXCALLS)
		return CCS_RESULT_ERROR_INVALID_DISTRIBUTION;
	for (size_t i = 0; i < num; i++) {
		if (NEVER) {
			v[i].i = 20;
			continue;
		}
		int64_t x = nd_i64();
		if (!OVER)
			v_assume(0 <= x && x < NP);
		v[i].i = x;
	}
	return CCS_RESULT_SUCCESS;
}
static int
find(const ccs_datum_t *v)
{
	for (int i = 0; i < NP; i++)
		if (veq(&PV0[i], v))
			return i;
	return -1;
}
static ccs_datum_t
mk_value(void)
{
	ccs_datum_t d = mk_datum();
	/* strings and objects carry pointers: see the string units */
	v_assume(d.type != CCS_DATA_TYPE_STRING);
	return d;
}
static ccs_result_t
create(ccs_parameter_type_t t, size_t n, ccs_datum_t *v, size_t di, ccs_parameter_t *p)
{
	return t == CCS_PARAMETER_TYPE_CATEGORICAL ? ccs_create_categorical_parameter("ab", n, v, di, p) :
	       t == CCS_PARAMETER_TYPE_ORDINAL ? ccs_create_ordinal_parameter("ab", n, v, di, p) :
	                                         ccs_create_discrete_parameter("ab", n, v, di, p);
}
static ccs_result_t
getvals(ccs_parameter_type_t t, ccs_parameter_t p, size_t n, ccs_datum_t *v, size_t *c)
{
	return t == CCS_PARAMETER_TYPE_CATEGORICAL ? ccs_categorical_parameter_get_values(p, n, v, c) :
	       t == CCS_PARAMETER_TYPE_ORDINAL ? ccs_ordinal_parameter_get_values(p, n, v, c) :
	                                         ccs_discrete_parameter_get_values(p, n, v, c);
}
static int
kind_ok(ccs_parameter_type_t t, const ccs_datum_t *d)
{
	if (t == CCS_PARAMETER_TYPE_DISCRETE)
		return d->type == CCS_DATA_TYPE_INT || d->type == CCS_DATA_TYPE_FLOAT;
	return d->type == CCS_DATA_TYPE_NONE || d->type == CCS_DATA_TYPE_INT || d->type == CCS_DATA_TYPE_FLOAT || d->type == CCS_DATA_TYPE_BOOL;
}
/* symbolic content of a fixed kind (keeps symbolic execution off the string paths) */
static ccs_datum_t
mk_kind(ccs_data_type_t t)
{
	ccs_datum_t d;
	memset(&d, 0, sizeof(d));
	if (t == CCS_DATA_TYPE_FLOAT)
		d.value.f = nd_f64();
	else
		d.value.i = nd_i64();
	d.type  = t;
	d.flags = nd_u32();
	return d;
}
static void
mk_vals(ccs_data_type_t a, ccs_data_type_t b, ccs_data_type_t c)
{
	PV0[0] = PV[0] = mk_kind(a);
	PV0[1] = PV[1] = mk_kind(b);
	PV0[2] = PV[2] = mk_kind(c);
}
static ccs_parameter_type_t
mk_type(void)
{
	size_t k = nd_upto(2);
	return k == 0 ? CCS_PARAMETER_TYPE_CATEGORICAL : k == 1 ? CCS_PARAMETER_TYPE_ORDINAL : CCS_PARAMETER_TYPE_DISCRETE;
}

static void
do_create(ccs_parameter_type_t t, ccs_data_type_t a, ccs_data_type_t b, ccs_data_type_t c)
{
	size_t di = (size_t)nd_u64();
	int    ok = di < NP;
	int    dup = 0;
	P = NULL;
	T = t;
	mk_vals(a, b, c);
	for (int i = 0; i < NP; i++) {
		ok = ok && kind_ok(T, &PV0[i]);
		for (int j = 0; j < i; j++)
			dup = dup || veq(&PV0[i], &PV0[j]);
	}
	HOOM = nd_bool();
	V_OOM = 1;
	ccs_result_t r = create(T, NP, PV, di, &P);
	for (int i = 0; i < NP; i++)
		v_check(datum_same(&PV[i], &PV0[i]), "given values untouched");
	if (!ok) {
		v_check(r == CCS_RESULT_ERROR_INVALID_VALUE && !P, "bad kind or default index refused");
	} else if (dup) {
		v_check((r == CCS_RESULT_ERROR_INVALID_VALUE || r == CCS_RESULT_ERROR_OUT_OF_MEMORY) && !P, "duplicates refused");
	} else if (r == CCS_RESULT_ERROR_OUT_OF_MEMORY) {
		v_check(!P, "no object without memory");
	} else {
		_ccs_parameter_categorical_data_t *d = (_ccs_parameter_categorical_data_t *)P->data;
		v_check(r == CCS_RESULT_SUCCESS, "accepted");
		v_check(P->obj.type == CCS_OBJECT_TYPE_PARAMETER && P->obj.refcount == 1 && d->common_data.type == T, "kind");
		v_check(d->common_data.name[0] == 'a' && d->common_data.name[1] == 'b' && !d->common_data.name[2], "name");
		v_check(d->num_possible_values == NP, "count");
		v_check(d->common_data.interval.type == CCS_NUMERIC_TYPE_INT && d->common_data.interval.lower.i == 0 && d->common_data.interval.upper.i == NP && d->common_data.interval.lower_included && !d->common_data.interval.upper_included, "sampling interval is the index range");
		for (int i = 0; i < NP; i++)
			v_check(veq(&d->possible_values[i].d, &PV0[i]) && d->possible_values[i].d.flags == CCS_DATUM_FLAG_DEFAULT, "values in order");
		v_check(veq(&d->common_data.default_value, &PV0[di]), "default value");
		v_check(P->obj.ops->del(P) == CCS_RESULT_SUCCESS, "del");
		free(P);
	}
}
//@unit cat_create_i unwind=5 bounded="lists of 3 integer values" funcs=ccs_create_categorical_parameter,ccs_create_ordinal_parameter,ccs_create_discrete_parameter,_ccs_create_categorical_parameter flags="--memory-leak-check" timeout=100
void
h_cat_create_i(void)
{
	do_create(CCS_PARAMETER_TYPE_CATEGORICAL, CCS_DATA_TYPE_INT, CCS_DATA_TYPE_INT, CCS_DATA_TYPE_INT);
	if (P) V_REACH("created"); else V_REACH("refused");
}
//@unit cat_create_m unwind=5 bounded="lists of 3 values of mixed kinds" funcs=ccs_create_ordinal_parameter,_ccs_create_categorical_parameter flags="--memory-leak-check" timeout=100
void
h_cat_create_m(void)
{
	do_create(CCS_PARAMETER_TYPE_ORDINAL, CCS_DATA_TYPE_BOOL, CCS_DATA_TYPE_NONE, CCS_DATA_TYPE_BOOL);
	if (P) V_REACH("created"); else V_REACH("refused");
}
//@unit cat_create_d unwind=5 bounded="lists of 3 numeric values" funcs=ccs_create_discrete_parameter,_ccs_create_categorical_parameter flags="--memory-leak-check" timeout=100
void
h_cat_create_d(void)
{
	do_create(CCS_PARAMETER_TYPE_DISCRETE, CCS_DATA_TYPE_FLOAT, CCS_DATA_TYPE_INT, CCS_DATA_TYPE_FLOAT);
	if (P) V_REACH("created"); else V_REACH("refused");
}
//@unit cat_create_bad unwind=5 bounded="lists of 3 values" funcs=ccs_create_categorical_parameter,ccs_create_ordinal_parameter,ccs_create_discrete_parameter flags="--memory-leak-check" timeout=100
void
h_cat_create_bad(void)
{
	int w = (int)nd_upto(3);
	if (w == 0)
		do_create(CCS_PARAMETER_TYPE_DISCRETE, CCS_DATA_TYPE_INT, CCS_DATA_TYPE_FLOAT, CCS_DATA_TYPE_BOOL);
	else if (w == 1)
		do_create(CCS_PARAMETER_TYPE_CATEGORICAL, CCS_DATA_TYPE_INT, CCS_DATA_TYPE_INT, CCS_DATA_TYPE_INACTIVE);
	else if (w == 2)
		do_create(CCS_PARAMETER_TYPE_ORDINAL, CCS_DATA_TYPE_OBJECT, CCS_DATA_TYPE_INT, CCS_DATA_TYPE_INT);
	else {
		ccs_datum_t v = mk_kind(CCS_DATA_TYPE_INT);
		P = NULL;
		v_check(create(CCS_PARAMETER_TYPE_ORDINAL, 0, NULL, 0, &P) == CCS_RESULT_ERROR_INVALID_VALUE && !P, "empty list refused");
		v_check(create(CCS_PARAMETER_TYPE_CATEGORICAL, 1, NULL, 0, &P) == CCS_RESULT_ERROR_INVALID_VALUE && !P, "NULL list refused");
		v_check(ccs_create_discrete_parameter(NULL, 1, &v, 0, &P) == CCS_RESULT_ERROR_INVALID_VALUE && !P, "NULL name refused");
	}
	V_REACH("end");
}
/* a parameter over NP distinct values, built by the real code; the code treats
 * values through equality only, creation with arbitrary values is above */
static void
mk_cat(ccs_parameter_type_t t, ccs_data_type_t a, ccs_data_type_t b, ccs_data_type_t c)
{
	ccs_data_type_t k[3] = {a, b, c};
	T = t;
	for (int i = 0; i < NP; i++) {
		PV0[i] = k[i] == CCS_DATA_TYPE_INT ? ccs_int(100 + i) : k[i] == CCS_DATA_TYPE_FLOAT ? ccs_float(1.5 + i) :
		         k[i] == CCS_DATA_TYPE_BOOL ? ccs_bool(i & 1) : ccs_none;
		PV[i] = PV0[i];
	}
	P = NULL;
	v_assume(create(T, NP, PV, 0, &P) == CCS_RESULT_SUCCESS && P);
}
#define CAT CCS_PARAMETER_TYPE_CATEGORICAL
#define ORD CCS_PARAMETER_TYPE_ORDINAL
#define DIS CCS_PARAMETER_TYPE_DISCRETE
#define INT CCS_DATA_TYPE_INT
#define FLT CCS_DATA_TYPE_FLOAT
#define BOO CCS_DATA_TYPE_BOOL
static ccs_datum_t VALS[NV], ORIG[NV], OUT[NV + 1], OUT0[NV + 1];
static ccs_bool_t  RES[NV + 1];
static size_t      N;
static void
mk_arrays(void)
{
	N = nd_upto(NV);
	for (size_t i = 0; i < NV; i++)
		VALS[i] = ORIG[i] = mk_value();
	for (size_t i = 0; i <= NV; i++) {
		OUT0[i].value.i = 42;
		OUT0[i].type = CCS_DATA_TYPE_BOOL;
		OUT[i] = OUT0[i];
		RES[i] = 7;
	}
}
//@unit cat_check unwind=5 bounded="lists of 3 non-string values, batches of up to 3" funcs=ccs_parameter_check_values,ccs_parameter_validate_values,_ccs_parameter_categorical_check_values timeout=100
void
h_cat_check(void)
{
	int out = nd_bool();
	mk_cat(CAT, INT, BOO, INT);
	mk_arrays();
	ccs_result_t r = out ? ccs_parameter_validate_values(P, N, VALS, OUT, RES) :
	                       ccs_parameter_check_values(P, N, VALS, RES);
	v_check(r == CCS_RESULT_SUCCESS, "check succeeds");
	for (size_t i = 0; i < NV; i++)
		if (i < N) {
			int f = find(&ORIG[i]);
			v_check(datum_same(&VALS[i], &ORIG[i]), "candidates untouched");
			v_check(RES[i] == (f >= 0 ? CCS_TRUE : CCS_FALSE), "accepted iff listed");
			if (out)
				v_check(f >= 0 ? veq(&OUT[i], &PV0[f]) && OUT[i].flags == CCS_DATUM_FLAG_DEFAULT : is_inactive(&OUT[i]), "validated value");
		}
	for (size_t i = 0; i <= NV; i++)
		if (i >= N)
			v_check(RES[i] == 7, "nothing else written");
	for (size_t i = 0; i <= NV; i++)
		if (i >= N || !out)
			v_check(datum_same(&OUT[i], &OUT0[i]), "nothing else written");
	if (N == NV && out)
		V_REACH("validate");
	if (N == NV && !out)
		V_REACH("check");
}
//@unit ord_compare unwind=5 bounded="lists of 3 non-string values" funcs=ccs_ordinal_parameter_compare_values timeout=100
void
h_ord_compare(void)
{
	mk_cat(ORD, INT, FLT, INT);
	ccs_datum_t a = mk_value(), b = mk_value();
	ccs_int_t    c = 99;
	ccs_result_t r = ccs_ordinal_parameter_compare_values(P, a, b, &c);
	int          fa = find(&a), fb = find(&b);
	if (fa < 0 || fb < 0)
		v_check(r == CCS_RESULT_ERROR_INVALID_VALUE && c == 99, "unknown value refused");
	else {
		v_check(r == CCS_RESULT_SUCCESS && c == (fa < fb ? -1 : fa > fb ? 1 : 0), "order of the list");
		V_REACH("compared");
	}
}
//@unit ord_compare_kind unwind=5 bounded="lists of 3 non-string values" funcs=ccs_ordinal_parameter_compare_values timeout=100
void
h_ord_compare_kind(void)
{
	ccs_int_t c = 99;
	mk_cat(CAT, INT, INT, INT);
	v_check(ccs_ordinal_parameter_compare_values(P, PV0[0], PV0[1], &c) == CCS_RESULT_ERROR_INVALID_PARAMETER && c == 99, "only ordinal parameters are ordered");
	V_REACH("end");
}
//@unit cat_get_values prop=C07,C14 unwind=6 bounded="lists of 3 non-string values, output arrays of up to 5" funcs=ccs_categorical_parameter_get_values,ccs_ordinal_parameter_get_values,ccs_discrete_parameter_get_values timeout=100
void
h_cat_get_values(void)
{
	size_t      n = nd_upto(NP + 2), c = 99, *pc = nd_bool() ? &c : NULL;
	ccs_datum_t out[NP + 2], out0;
	int         null = nd_bool();
	if (nd_bool())
		mk_cat(CAT, INT, INT, BOO);
	else if (nd_bool())
		mk_cat(ORD, INT, BOO, INT);
	else
		mk_cat(DIS, INT, FLT, INT);
	memset(&out0, 0, sizeof(out0));
	out0.value.i = 42;
	out0.type = CCS_DATA_TYPE_BOOL;
	for (int i = 0; i < NP + 2; i++)
		out[i] = out0;
	ccs_result_t r = getvals(T, P, null ? 0 : n, null ? NULL : out, pc);
	if (null && !pc)
		v_check(r == CCS_RESULT_ERROR_INVALID_VALUE, "nothing requested");
	else if (!null && n < NP) {
		v_check(r == CCS_RESULT_ERROR_INVALID_VALUE && c == 99, "short array refused");
		for (int i = 0; i < NP + 2; i++)
			v_check(datum_same(&out[i], &out0), "short array untouched");
		V_REACH("short");
	} else {
		v_check(r == CCS_RESULT_SUCCESS && (!pc || c == NP), "count");
		for (size_t i = 0; i < NP + 2; i++)
			v_check(null || i >= n ? datum_same(&out[i], &out0) : i < NP ? veq(&out[i], &PV0[i]) : is_none(&out[i]), "values in order, padded");
		if (!null)
			V_REACH("listed");
	}
	ccs_parameter_type_t o = T == CCS_PARAMETER_TYPE_ORDINAL ? CCS_PARAMETER_TYPE_DISCRETE : CCS_PARAMETER_TYPE_ORDINAL;
	v_check(getvals(o, P, 0, NULL, &c) == CCS_RESULT_ERROR_INVALID_PARAMETER, "kind checked");
}
//@unit cat_convert prop=C07,C08 unwind=5 bounded="lists of 3 non-string values, batches of up to 3" funcs=ccs_parameter_convert_samples,_ccs_parameter_categorical_convert_samples timeout=100
void
h_cat_convert(void)
{
	int           over = nd_bool();
	ccs_numeric_t in[NV];
	int64_t       in0[NV];
	mk_cat(DIS, INT, FLT, INT);
	mk_arrays();
	for (size_t i = 0; i < NV; i++) {
		in0[i] = in[i].i = nd_i64();
		v_assume(over || (0 <= in0[i] && in0[i] < NP));
	}
	ccs_result_t r = ccs_parameter_convert_samples(P, over, N, in, OUT);
	v_check(r == CCS_RESULT_SUCCESS, "convert succeeds");
	for (size_t i = 0; i <= NV; i++)
		if (i < N) {
			if (0 <= in0[i] && in0[i] < NP)
				v_check(veq(&OUT[i], &PV0[in0[i]]), "value at the sampled position");
			else
				v_check(is_inactive(&OUT[i]), "out of range index is inactive");
		} else
			v_check(datum_same(&OUT[i], &OUT0[i]), "no write past the request");
	V_REACH("end");
}
static void
sampling(size_t n, size_t maxcalls)
{
	ccs_datum_t *v = (ccs_datum_t *)malloc(n * sizeof(ccs_datum_t));
	v_assume(v != NULL);
	mk_shell(&DOBJ, CCS_OBJECT_TYPE_DISTRIBUTION, NULL, &DUMMY);
	mk_shell(&ROBJ, CCS_OBJECT_TYPE_RNG, NULL, &DUMMY);
	CALLS = 0; MAXCALLS = maxcalls;
	for (int i = 0; i < NP; i++)
		PV0[i] = PV[i] = ccs_int(100 + i);
	T = CCS_PARAMETER_TYPE_CATEGORICAL;
	P = NULL;
	v_assume(create(T, NP, PV, 0, &P) == CCS_RESULT_SUCCESS && P);
	V_OOM = nd_bool();
	ccs_result_t r = n == 1 && nd_bool() ? ccs_parameter_sample(P, (ccs_distribution_t)&DOBJ, (ccs_rng_t)&ROBJ, v) :
		ccs_parameter_samples(P, (ccs_distribution_t)&DOBJ, (ccs_rng_t)&ROBJ, n, v);
	v_check(r == CCS_RESULT_SUCCESS || r == CCS_RESULT_ERROR_INVALID_DISTRIBUTION || r == CCS_RESULT_ERROR_OUT_OF_MEMORY || r == CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL, "documented result");
	if (r == CCS_RESULT_SUCCESS)
		for (size_t i = 0; i < n; i++) {
			v_check(find(&v[i]) >= 0, "sampled value is a listed one");
			v_check(v[i].flags == CCS_DATUM_FLAG_DEFAULT, "flags");
		}
	if (NEVER)
		v_check(r == CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL || r == CCS_RESULT_ERROR_OUT_OF_MEMORY, "gives up");
	V_OOM = 0;
	free(v);
	P->obj.ops->del(P);
	free(P);
}
//@unit cat_sample3 prop=C08 unwind=9 flags="--memory-leak-check" bounded="three values, one retry round then the distribution errors out" funcs=ccs_parameter_samples,_ccs_parameter_categorical_samples timeout=100
void
h_cat_sample3(void)
{
	OVER = nd_bool();
	sampling(3, 2);
	if (CALLS == 2)
		V_REACH("second round");
}
//@unit cat_sample1 prop=C08 unwind=9 flags="--memory-leak-check" bounded="one value, two retry rounds then the distribution errors out" funcs=ccs_parameter_sample,ccs_parameter_samples,_ccs_parameter_categorical_samples timeout=100
void
h_cat_sample1(void)
{
	OVER = nd_bool();
	sampling(1, 3);
	if (CALLS == 3)
		V_REACH("third round");
}
//@unit cat_giveup prop=C08 unwind=70 flags="--memory-leak-check" bounded="two values, concrete distribution that never hits" funcs=ccs_parameter_samples,_ccs_parameter_categorical_samples timeout=100
void
h_cat_giveup(void)
{
	OVER = CCS_TRUE;
	NEVER = 1;
	sampling(2, 100);
	V_REACH("gave up");
}
