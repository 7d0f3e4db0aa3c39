/* Contracts for src/parameter_numerical.c and the generic entry points of
 * src/parameter.c over it. */
//@property C06
//@assume fit of a non-zero float quantization is only decided for lower == 0
//@assume distribution objects are opaque here: ccs_create_uniform_distribution and the sampling entry points are the stubs of this unit
#include "vcommon.h"
#include "parameter_internal.h"
#include "vspec.h"
#ifndef NV
#define NV 3
#endif
#ifndef NAMELEN
#define NAMELEN 3
#endif

/* ---- spec ---- */
static int
ok_int(int64_t lo, int64_t up, int64_t q, int64_t d)
{
	return lo < up && q >= 0 &&
	       (uint64_t)q <= (uint64_t)up - (uint64_t)lo && lo <= d && d < up;
}
static int
ok_flt(double lo, double up, double q, double d)
{
	/* the quantization test is stated for lo == 0 and q == 0 only: relating
	 * two floating point subtractions bit for bit is out of the solver's
	 * reach (see DESIGN.md) */
	return lo < up && q >= 0.0 && (q == 0.0 || q <= up) && lo <= d && d < up;
}
static int
str_eq(const char *a, const char *b, size_t max)
{
	for (size_t i = 0; i <= max; i++) {
		if (a[i] != b[i])
			return 0;
		if (!a[i])
			return 1;
	}
	return 0;
}
static uint64_t
fbits(double x)
{
	union { double d; uint64_t u; } v;
	v.d = x;
	return v.u;
}
static int
post_create(const char *name, ccs_numeric_type_t t, int64_t lo, int64_t up,
            int64_t q, int64_t d, double flo, double fup, double fq, double fd,
            ccs_parameter_t p, ccs_parameter_t old, ccs_result_t ret)
{
	if (t != CCS_NUMERIC_TYPE_INT && t != CCS_NUMERIC_TYPE_FLOAT)
		return ret == CCS_RESULT_ERROR_INVALID_TYPE && p == old;
	if (!(t == CCS_NUMERIC_TYPE_INT ? ok_int(lo, up, q, d) :
	                                  ok_flt(flo, fup, fq, fd)))
		return ret == CCS_RESULT_ERROR_INVALID_VALUE && p == old;
	if (ret == CCS_RESULT_ERROR_OUT_OF_MEMORY)
		return p == old;
	if (ret != CCS_RESULT_SUCCESS)
		return 0;
	_ccs_parameter_numerical_data_t *D =
		(_ccs_parameter_numerical_data_t *)p->data;
	ccs_interval_t *I = &D->common_data.interval;
	if (p->obj.type != CCS_OBJECT_TYPE_PARAMETER || p->obj.refcount != 1 ||
	    D->common_data.type != CCS_PARAMETER_TYPE_NUMERICAL ||
	    !str_eq(D->common_data.name, name, NAMELEN) || I->type != t ||
	    !I->lower_included || I->upper_included ||
	    D->common_data.default_value.flags != CCS_DATUM_FLAG_DEFAULT)
		return 0;
	if (t == CCS_NUMERIC_TYPE_INT)
		return I->lower.i == lo && I->upper.i == up &&
		       D->quantization.i == q &&
		       D->common_data.default_value.type == CCS_DATA_TYPE_INT &&
		       D->common_data.default_value.value.i == d;
	return fbits(I->lower.f) == fbits(flo) &&
	       fbits(I->upper.f) == fbits(fup) &&
	       fbits(D->quantization.f) == fbits(fq) &&
	       D->common_data.default_value.type == CCS_DATA_TYPE_FLOAT &&
	       fbits(D->common_data.default_value.value.f) == fbits(fd);
}

ccs_result_t ccs_create_numerical_parameter(const char *name, ccs_numeric_type_t data_type, ccs_numeric_t lower, ccs_numeric_t upper, ccs_numeric_t quantization, ccs_numeric_t default_value, ccs_parameter_t *parameter_ret)
V_ASSIGNS(*parameter_ret)
V_ENSURES(post_create(name, data_type, lower.i, upper.i, quantization.i, default_value.i, lower.f, upper.f, quantization.f, default_value.f, *parameter_ret, V_OLD(*parameter_ret), V_RET));

#include "parameter_numerical.c"
#include "parameter.c"

ccs_result_t
ccs_create_uniform_distribution(ccs_numeric_type_t t, ccs_numeric_t lo, ccs_numeric_t up, ccs_scale_type_t s, ccs_numeric_t q, ccs_distribution_t *d)
{
	return CCS_RESULT_ERROR_OUT_OF_MEMORY;
}


//@unit num_create_int enforce=ccs_create_numerical_parameter unwind=5
void
h_num_create_int(void)
{
	ccs_numeric_type_t t = (ccs_numeric_type_t)nd_i32();
	ccs_numeric_t      lo, up, q, d;
	ccs_parameter_t    p = NULL;
	v_assume(t != CCS_NUMERIC_TYPE_FLOAT);
	lo.i = nd_i64(); up.i = nd_i64(); q.i = nd_i64(); d.i = nd_i64();
	ccs_result_t r = ccs_create_numerical_parameter("ab", t, lo, up, q, d, &p);
	V_NCHECK(post_create("ab", t, lo.i, up.i, q.i, d.i, lo.f, up.f, q.f, d.f, p, NULL, r));
	if (r == CCS_RESULT_SUCCESS)
		V_REACH("int");
	if (r == CCS_RESULT_ERROR_INVALID_TYPE)
		V_REACH("type");
}
//@unit num_create_float enforce=ccs_create_numerical_parameter unwind=5
void
h_num_create_float(void)
{
	ccs_numeric_t   lo, up, q, d;
	ccs_parameter_t p = NULL;
	lo.f = nd_f64(); up.f = nd_f64(); q.f = 0.0; d.f = nd_f64();
	ccs_result_t r = ccs_create_numerical_parameter("ab", CCS_NUMERIC_TYPE_FLOAT, lo, up, q, d, &p);
	V_NCHECK(post_create("ab", CCS_NUMERIC_TYPE_FLOAT, lo.i, up.i, q.i, d.i, lo.f, up.f, q.f, d.f, p, NULL, r));
	if (r == CCS_RESULT_SUCCESS)
		V_REACH("float");
}
//@unit num_create_floatq enforce=ccs_create_numerical_parameter unwind=5
void
h_num_create_floatq(void)
{
	ccs_numeric_t   lo, up, q, d;
	ccs_parameter_t p = NULL;
	lo.f = 0.0; up.f = nd_f64(); q.f = nd_f64(); d.f = nd_f64();
	ccs_result_t r = ccs_create_numerical_parameter("ab", CCS_NUMERIC_TYPE_FLOAT, lo, up, q, d, &p);
	V_NCHECK(post_create("ab", CCS_NUMERIC_TYPE_FLOAT, lo.i, up.i, q.i, d.i, lo.f, up.f, q.f, d.f, p, NULL, r));
	if (r == CCS_RESULT_SUCCESS)
		V_REACH("float");
}

/* ---- an arbitrary well-formed numerical parameter ---- */
static struct _ccs_parameter_s         PAR;
static _ccs_parameter_numerical_data_t PD;
static void
mk_param(ccs_numeric_type_t t)
{
	memset(&PD, 0, sizeof(PD));
	PD.common_data.type = CCS_PARAMETER_TYPE_NUMERICAL;
	PD.common_data.name = "ab";
	mk_interval(&PD.common_data.interval, t);
	PD.common_data.interval.lower_included = CCS_TRUE;
	PD.common_data.interval.upper_included = CCS_FALSE;
	if (t == CCS_NUMERIC_TYPE_INT) {
		PD.quantization.i = nd_i64();
		v_assume(PD.common_data.interval.lower.i < PD.common_data.interval.upper.i);
	} else {
		PD.quantization.f = nd_f64();
		v_assume(PD.common_data.interval.lower.f < PD.common_data.interval.upper.f);
	}
	PD.common_data.default_value = mk_datum();
	mk_shell(&PAR, CCS_OBJECT_TYPE_PARAMETER, &_ccs_parameter_numerical_ops, &PD);
}
static int
accepts(const ccs_datum_t *v)
{
	ccs_interval_t *I = &PD.common_data.interval;
	return (int)v->type == (int)I->type &&
	       (I->type == CCS_NUMERIC_TYPE_INT ?
	                I->lower.i <= v->value.i && v->value.i < I->upper.i :
	                I->lower.f <= v->value.f && v->value.f < I->upper.f);
}
static ccs_datum_t VALS[NV], ORIG[NV], OUT[NV + 1], OUT0[NV + 1];
static ccs_bool_t  RES[NV + 1];
static size_t      N;
static int
post_check(ccs_bool_t has_out, ccs_result_t ret)
{
	if (ret != CCS_RESULT_SUCCESS)
		return 0;
	for (size_t i = 0; i < NV; i++)
		if (i < N) {
			if (!datum_same(&VALS[i], &ORIG[i]))
				return 0;
			if (RES[i] != (accepts(&ORIG[i]) ? CCS_TRUE : CCS_FALSE))
				return 0;
			if (has_out && !(accepts(&ORIG[i]) ? datum_same(&OUT[i], &ORIG[i]) : is_inactive(&OUT[i])))
				return 0;
		}
	for (size_t i = 0; i <= NV; i++)
		if (i >= N && (RES[i] != 7 || !datum_same(&OUT[i], &OUT0[i])))
			return 0;
	return 1;
}
static void
mk_arrays(void)
{
	N = nd_upto(NV);
	for (size_t i = 0; i < NV; i++)
		VALS[i] = ORIG[i] = mk_datum();
	for (size_t i = 0; i <= NV; i++) {
		OUT0[i].value.i = 42;
		OUT0[i].type = CCS_DATA_TYPE_BOOL;
		OUT[i] = OUT0[i];
		RES[i] = 7;
	}
}
//@unit num_check_values unwind=5 bounded="arrays of up to 3 values" funcs=ccs_parameter_check_values,ccs_parameter_validate_values,_ccs_parameter_numerical_check_values
void
h_num_check_values(void)
{
	int flt = nd_bool(), out = nd_bool();
	mk_param(flt ? CCS_NUMERIC_TYPE_FLOAT : CCS_NUMERIC_TYPE_INT);
	mk_arrays();
	ccs_result_t r = out ? ccs_parameter_validate_values(&PAR, N, VALS, OUT, RES) :
	                       ccs_parameter_check_values(&PAR, N, VALS, RES);
	v_check(post_check(out, r), "acceptance per value, in order, nothing else written");
	if (N == NV && out && flt)
		V_REACH("validate float");
	if (N == NV && !out && !flt)
		V_REACH("check int");
}
static int
post_one(ccs_datum_t *v, ccs_bool_t res, ccs_datum_t *o, ccs_result_t ret)
{
	if (ret != CCS_RESULT_SUCCESS || res != (accepts(v) ? CCS_TRUE : CCS_FALSE))
		return 0;
	return !o || (accepts(v) ? datum_same(o, v) : is_inactive(o));
}
ccs_result_t ccs_parameter_check_value(ccs_parameter_t parameter, ccs_datum_t value, ccs_bool_t *result_ret)
V_ASSIGNS(*result_ret)
V_ENSURES(post_one(&value, *result_ret, NULL, V_RET));
ccs_result_t ccs_parameter_validate_value(ccs_parameter_t parameter, ccs_datum_t value, ccs_datum_t *value_ret, ccs_bool_t *result_ret)
V_ASSIGNS(*result_ret, *value_ret)
V_ENSURES(post_one(&value, *result_ret, value_ret, V_RET));

//@unit num_check_value unwind=2 enforce=ccs_parameter_check_value
void
h_num_check_value(void)
{
	int flt = nd_bool();
	ccs_bool_t  res = 7;
	mk_param(flt ? CCS_NUMERIC_TYPE_FLOAT : CCS_NUMERIC_TYPE_INT);
	ccs_datum_t v = mk_datum();
	ccs_result_t r = ccs_parameter_check_value(&PAR, v, &res);
	V_NCHECK(post_one(&v, res, NULL, r));
	if (res)
		V_REACH("accepted");
	else
		V_REACH("refused");
}
//@unit num_validate_value unwind=2 enforce=ccs_parameter_validate_value
void
h_num_validate_value(void)
{
	int flt = nd_bool();
	ccs_bool_t  res = 7;
	mk_param(flt ? CCS_NUMERIC_TYPE_FLOAT : CCS_NUMERIC_TYPE_INT);
	ccs_datum_t v = mk_datum(), o = mk_datum();
	ccs_result_t r = ccs_parameter_validate_value(&PAR, v, &o, &res);
	V_NCHECK(post_one(&v, res, &o, r));
	if (res)
		V_REACH("accepted");
	else
		V_REACH("refused");
}
//@unit num_convert unwind=5 bounded="arrays of up to 3 samples" funcs=ccs_parameter_convert_samples,_ccs_parameter_numerical_convert_samples prop=C06,C08
void
h_num_convert(void)
{
	int flt = nd_bool(), over = nd_bool();
	ccs_numeric_t in[NV], in0[NV];
	mk_param(flt ? CCS_NUMERIC_TYPE_FLOAT : CCS_NUMERIC_TYPE_INT);
	mk_arrays();
	for (size_t i = 0; i < NV; i++) {
		if (flt) in[i].f = nd_f64(); else in[i].i = nd_i64();
		in0[i] = in[i];
	}
	ccs_result_t r = ccs_parameter_convert_samples(&PAR, over, N, in, OUT);
	v_check(r == CCS_RESULT_SUCCESS, "convert succeeds");
	for (size_t i = 0; i <= NV; i++)
		if (i < N) {
			int isin = iv_in(&PD.common_data.interval, &in0[i]);
			if (!over || isin) {
				v_check((int)OUT[i].type == (int)PD.common_data.interval.type && OUT[i].flags == CCS_DATUM_FLAG_DEFAULT, "converted kind");
				v_check(OUT[i].value.i == in0[i].i, "converted value");
			} else
				v_check(is_inactive(&OUT[i]), "out of range sample is inactive");
		} else
			v_check(datum_same(&OUT[i], &OUT0[i]), "no write past the request");
	if (N == NV && over)
		V_REACH("oversampling");
	if (N == NV && !over)
		V_REACH("direct");
}
//@unit num_getters unwind=2 funcs=ccs_numerical_parameter_get_properties,ccs_parameter_get_type,ccs_parameter_get_name,ccs_parameter_get_default_value,ccs_parameter_sampling_interval
void
h_num_getters(void)
{
	int flt = nd_bool();
	mk_param(flt ? CCS_NUMERIC_TYPE_FLOAT : CCS_NUMERIC_TYPE_INT);
	ccs_numeric_type_t t = 77, *pt = nd_bool() ? &t : NULL;
	ccs_numeric_t lo, up, q, *plo = nd_bool() ? &lo : NULL, *pup = nd_bool() ? &up : NULL, *pq = nd_bool() ? &q : NULL;
	lo.i = up.i = q.i = 99;
	ccs_result_t r = ccs_numerical_parameter_get_properties(&PAR, pt, plo, pup, pq);
	if (!pt && !plo && !pup && !pq)
		v_check(r == CCS_RESULT_ERROR_INVALID_VALUE, "nothing requested");
	else {
		v_check(r == CCS_RESULT_SUCCESS, "get_properties");
		v_check(t == (pt ? PD.common_data.interval.type : 77), "type");
		v_check(lo.i == (plo ? PD.common_data.interval.lower.i : 99), "lower");
		v_check(up.i == (pup ? PD.common_data.interval.upper.i : 99), "upper");
		v_check(q.i == (pq ? PD.quantization.i : 99), "quantization");
		V_REACH("properties");
	}
	ccs_parameter_type_t pty;
	const char *nm = NULL;
	ccs_datum_t dv;
	ccs_interval_t I;
	v_check(ccs_parameter_get_type(&PAR, &pty) == CCS_RESULT_SUCCESS && pty == CCS_PARAMETER_TYPE_NUMERICAL, "get_type");
	v_check(ccs_parameter_get_name(&PAR, &nm) == CCS_RESULT_SUCCESS && nm == PD.common_data.name, "get_name");
	v_check(ccs_parameter_get_default_value(&PAR, &dv) == CCS_RESULT_SUCCESS && datum_same(&dv, &PD.common_data.default_value), "get_default_value");
	v_check(ccs_parameter_sampling_interval(&PAR, &I) == CCS_RESULT_SUCCESS && I.type == PD.common_data.interval.type && I.lower.i == PD.common_data.interval.lower.i && I.upper.i == PD.common_data.interval.upper.i && I.lower_included && !I.upper_included, "sampling_interval");
	PAR.obj.type = CCS_OBJECT_TYPE_RNG;
	v_check(ccs_parameter_get_type(&PAR, &pty) == CCS_RESULT_ERROR_INVALID_OBJECT, "foreign object refused");
	V_REACH("end");
}
/* ---- C08: sampling ---- */
static struct { ccs_distribution_t d; } DUMMY;
static _ccs_object_template_t DOBJ, ROBJ;
static size_t     CALLS, MAXCALLS;
static ccs_bool_t OVER;
static ccs_result_t OVERRES;
static int NEVER;
ccs_result_t
ccs_distribution_check_oversampling(ccs_distribution_t d, ccs_interval_t *interval, ccs_bool_t *ret)
{
	v_check(interval->type == PD.common_data.interval.type && interval->lower.i == PD.common_data.interval.lower.i && interval->upper.i == PD.common_data.interval.upper.i && interval->lower_included && !interval->upper_included, "oversampling tested against the parameter's own range");
	if (OVERRES)
		return OVERRES;
	*ret = OVER;
	return CCS_RESULT_SUCCESS;
}
/* contract of the sampled distribution: any values; inside the interval when
 * no oversampling was announced */
ccs_result_t
ccs_distribution_samples(ccs_distribution_t d, ccs_rng_t r, size_t num, ccs_numeric_t *v)
{
	v_check((void *)d == (void *)&DOBJ && (void *)r == (void *)&ROBJ, "samples the given distribution with the given generator");
	if (CALLS++ >= MAXCALLS)
		return CCS_RESULT_ERROR_INVALID_DISTRIBUTION;
	if (NEVER) { /* a distribution that never hits the interval */
		for (size_t i = 0; i < num; i++)
			v[i].i = 20;
		return CCS_RESULT_SUCCESS;
	}
	for (size_t i = 0; i < num; i++) {
		ccs_numeric_t x;
		if (PD.common_data.interval.type == CCS_NUMERIC_TYPE_FLOAT)
			x.f = nd_f64();
		else
			x.i = nd_i64();
		if (!OVER)
			v_assume(iv_in(&PD.common_data.interval, &x));
		v[i] = x;
	}
	return CCS_RESULT_SUCCESS;
}
static void
sampling(size_t n, size_t maxcalls, int flt)
{
	ccs_datum_t *v = (ccs_datum_t *)malloc(n * sizeof(ccs_datum_t));
	v_assume(v != NULL);
	mk_param(flt ? CCS_NUMERIC_TYPE_FLOAT : CCS_NUMERIC_TYPE_INT);
	mk_shell(&DOBJ, CCS_OBJECT_TYPE_DISTRIBUTION, NULL, &DUMMY);
	mk_shell(&ROBJ, CCS_OBJECT_TYPE_RNG, NULL, &DUMMY);
	OVER = nd_bool(); CALLS = 0; MAXCALLS = maxcalls;
	OVERRES = nd_bool() ? CCS_RESULT_SUCCESS : CCS_RESULT_ERROR_INVALID_DISTRIBUTION;
	ccs_result_t r = n == 1 && nd_bool() ? ccs_parameter_sample(&PAR, (ccs_distribution_t)&DOBJ, (ccs_rng_t)&ROBJ, v) :
		ccs_parameter_samples(&PAR, (ccs_distribution_t)&DOBJ, (ccs_rng_t)&ROBJ, n, v);
	v_check(!(OVERRES && !r), "error of the distribution is reported");
	v_check(r == CCS_RESULT_SUCCESS || r == CCS_RESULT_ERROR_INVALID_DISTRIBUTION || r == CCS_RESULT_ERROR_OUT_OF_MEMORY || r == CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL, "documented result");
	if (r == CCS_RESULT_SUCCESS)
		for (size_t i = 0; i < n; i++) {
			v_check(accepts(&v[i]), "sampled value accepted by the parameter");
			v_check(v[i].flags == CCS_DATUM_FLAG_DEFAULT, "flags");
		}
	free(v);
}
//@unit num_sample1 prop=C08 unwind=10 flags="--memory-leak-check" bounded="one value, two retry rounds then the distribution errors out" funcs=ccs_parameter_sample,ccs_parameter_samples,_ccs_parameter_numerical_samples timeout=300
void
h_num_sample1(void)
{
	sampling(1, 3, nd_bool());
	if (CALLS == 2)
		V_REACH("second round");
}
//@unit num_sample3 prop=C08 unwind=9 flags="--memory-leak-check --object-bits 8" bounded="three values, one retry round then the distribution errors out" funcs=ccs_parameter_samples,_ccs_parameter_numerical_samples timeout=300
void
h_num_sample3(void)
{
	sampling(3, 2, 0);
	if (CALLS == 2)
		V_REACH("second round");
}
//@unit num_sample2f prop=C08 unwind=9 flags="--memory-leak-check --object-bits 8" bounded="two values, one retry round then the distribution errors out" funcs=ccs_parameter_samples,_ccs_parameter_numerical_samples timeout=300
void
h_num_sample2f(void)
{
	sampling(2, 2, 1);
	if (CALLS == 2)
		V_REACH("second round");
}
//@unit num_giveup prop=C08 unwind=70 flags="--memory-leak-check" bounded="two values, concrete distribution that never hits" funcs=ccs_parameter_samples,_ccs_parameter_numerical_samples timeout=300
void
h_num_giveup(void)
{
	ccs_datum_t *v = (ccs_datum_t *)malloc(2 * sizeof(ccs_datum_t));
	v_assume(v != NULL);
	PD.common_data.type = CCS_PARAMETER_TYPE_NUMERICAL;
	PD.common_data.interval.type = CCS_NUMERIC_TYPE_INT;
	PD.common_data.interval.lower.i = 0;
	PD.common_data.interval.upper.i = 10;
	PD.common_data.interval.lower_included = CCS_TRUE;
	PD.common_data.interval.upper_included = CCS_FALSE;
	mk_shell(&PAR, CCS_OBJECT_TYPE_PARAMETER, &_ccs_parameter_numerical_ops, &PD);
	mk_shell(&DOBJ, CCS_OBJECT_TYPE_DISTRIBUTION, NULL, &DUMMY);
	mk_shell(&ROBJ, CCS_OBJECT_TYPE_RNG, NULL, &DUMMY);
	OVER = CCS_TRUE; MAXCALLS = 100; NEVER = 1;
	ccs_result_t r = ccs_parameter_samples(&PAR, (ccs_distribution_t)&DOBJ, (ccs_rng_t)&ROBJ, 2, v);
	v_check(r == CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL || r == CCS_RESULT_ERROR_OUT_OF_MEMORY, "reports failure");
	free(v);
	if (r == CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL)
		V_REACH("gave up");
}
