/* Contracts for src/interval.c: every operation against the set semantics of
 * an interval. Loop-free, full 64-bit integer and IEEE double domain. */
//@property C01
#include "vcommon.h"

static int64_t WI; /* arbitrary witness of the integer carrier */
static double  WF; /* arbitrary witness of the float carrier   */

static int
iin(const ccs_interval_t *I, int64_t x)
{
	return (I->lower.i < x || (I->lower_included && I->lower.i == x)) &&
	       (x < I->upper.i || (I->upper_included && I->upper.i == x));
}
static int
fin(const ccs_interval_t *I, double x)
{
	return (I->lower.f < x || (I->lower_included && I->lower.f == x)) &&
	       (x < I->upper.f || (I->upper_included && I->upper.f == x));
}
static int
wf(const ccs_interval_t *I)
{
	if (I->type != CCS_NUMERIC_TYPE_INT && I->type != CCS_NUMERIC_TYPE_FLOAT)
		return 0;
	if (I->type == CCS_NUMERIC_TYPE_FLOAT &&
	    (v_isnan(I->lower.f) || v_isnan(I->upper.f)))
		return 0;
	return (I->lower_included == 0 || I->lower_included == 1) &&
	       (I->upper_included == 0 || I->upper_included == 1);
}
static int
same(const ccs_interval_t *a, const ccs_interval_t *b)
{
	return a->type == b->type && a->lower.i == b->lower.i &&
	       a->upper.i == b->upper.i &&
	       a->lower_included == b->lower_included &&
	       a->upper_included == b->upper_included;
}
/* the set is empty: closed form over the integers / the dense order */
static int
isempty(const ccs_interval_t *I)
{
	if (I->type == CCS_NUMERIC_TYPE_INT) {
		int64_t l = I->lower.i, u = I->upper.i;
		if (l > u)
			return 1;
		if (l == u)
			return !(I->lower_included && I->upper_included);
		if (!I->lower_included && !I->upper_included)
			return (uint64_t)u - (uint64_t)l == 1;
		return 0;
	}
	if (I->lower.f > I->upper.f)
		return 1;
	if (I->lower.f == I->upper.f)
		return !(I->lower_included && I->upper_included);
	return 0;
}

static int
post_intersect(const ccs_interval_t *a, const ccs_interval_t *b,
               const ccs_interval_t *r, ccs_result_t ret)
{
	if (a->type != b->type)
		return ret == CCS_RESULT_ERROR_INVALID_TYPE;
	if (ret != CCS_RESULT_SUCCESS || r->type != a->type)
		return 0;
	if (a->type == CCS_NUMERIC_TYPE_FLOAT)
		return fin(r, WF) == (fin(a, WF) && fin(b, WF));
	return iin(r, WI) == (iin(a, WI) && iin(b, WI));
}
/* union is the smallest interval containing both: contains each operand and
 * each of its end points is an end point (with the same inclusion) of one of
 * them, so nothing outside the hull is added. */
static int
post_union(const ccs_interval_t *a, const ccs_interval_t *b,
           const ccs_interval_t *r, ccs_result_t ret)
{
	if (a->type != b->type)
		return ret == CCS_RESULT_ERROR_INVALID_TYPE;
	if (ret != CCS_RESULT_SUCCESS || r->type != a->type)
		return 0;
	if (isempty(a) || isempty(b))
		return 1;
	if (a->type == CCS_NUMERIC_TYPE_FLOAT) {
		int lo = (r->lower.f == a->lower.f &&
		          !r->lower_included == !a->lower_included) ||
		         (r->lower.f == b->lower.f &&
		          !r->lower_included == !b->lower_included);
		int up = (r->upper.f == a->upper.f &&
		          !r->upper_included == !a->upper_included) ||
		         (r->upper.f == b->upper.f &&
		          !r->upper_included == !b->upper_included);
		return lo && up && IMPLIES(fin(a, WF) || fin(b, WF), fin(r, WF));
	} else {
		int lo = (r->lower.i == a->lower.i &&
		          !r->lower_included == !a->lower_included) ||
		         (r->lower.i == b->lower.i &&
		          !r->lower_included == !b->lower_included);
		int up = (r->upper.i == a->upper.i &&
		          !r->upper_included == !a->upper_included) ||
		         (r->upper.i == b->upper.i &&
		          !r->upper_included == !b->upper_included);
		return lo && up && IMPLIES(iin(a, WI) || iin(b, WI), iin(r, WI));
	}
}
static int
post_empty(const ccs_interval_t *a, ccs_bool_t e, ccs_result_t ret)
{
	return ret == CCS_RESULT_SUCCESS &&
	       e == (isempty(a) ? CCS_TRUE : CCS_FALSE) &&
	       IMPLIES(e, a->type == CCS_NUMERIC_TYPE_FLOAT ? !fin(a, WF) :
	                                                     !iin(a, WI));
}
static int
post_equal(const ccs_interval_t *a, const ccs_interval_t *b, ccs_bool_t e,
           ccs_result_t ret)
{
	if (a->type != b->type)
		return ret == CCS_RESULT_ERROR_INVALID_TYPE;
	if (ret != CCS_RESULT_SUCCESS || (e != CCS_TRUE && e != CCS_FALSE))
		return 0;
	if (a->type == CCS_NUMERIC_TYPE_FLOAT)
		return e == (a->lower.f == b->lower.f &&
		             a->upper.f == b->upper.f &&
		             a->lower_included == b->lower_included &&
		             a->upper_included == b->upper_included) &&
		       IMPLIES(e, fin(a, WF) == fin(b, WF));
	if (e)
		return iin(a, WI) == iin(b, WI);
	/* distinct: one of the four extreme members tells them apart */
	{
		int64_t la = a->lower.i + (a->lower_included ? 0 : 1);
		int64_t ua = a->upper.i - (a->upper_included ? 0 : 1);
		int64_t lb = b->lower.i + (b->lower_included ? 0 : 1);
		int64_t ub = b->upper.i - (b->upper_included ? 0 : 1);
		return iin(a, la) != iin(b, la) || iin(a, ua) != iin(b, ua) ||
		       iin(a, lb) != iin(b, lb) || iin(a, ub) != iin(b, ub);
	}
}

ccs_result_t ccs_interval_empty(ccs_interval_t *interval, ccs_bool_t *empty_ret)
V_REQUIRES(wf(interval))
V_ASSIGNS(*empty_ret)
V_ENSURES(post_empty(interval, *empty_ret, V_RET));

ccs_result_t ccs_interval_intersect(ccs_interval_t *interval1, ccs_interval_t *interval2, ccs_interval_t *interval_res)
V_REQUIRES(wf(interval1) && wf(interval2))
V_ASSIGNS(*interval_res)
V_ENSURES(post_intersect(interval1, interval2, interval_res, V_RET));

ccs_result_t ccs_interval_union(ccs_interval_t *interval1, ccs_interval_t *interval2, ccs_interval_t *interval_res)
V_REQUIRES(wf(interval1) && wf(interval2))
V_ASSIGNS(*interval_res)
V_ENSURES(post_union(interval1, interval2, interval_res, V_RET));

ccs_result_t ccs_interval_equal(ccs_interval_t *interval1, ccs_interval_t *interval2, ccs_bool_t *equal_res)
V_REQUIRES(wf(interval1) && wf(interval2) && !isempty(interval1) && !isempty(interval2))
V_ASSIGNS(*equal_res)
V_ENSURES(post_equal(interval1, interval2, *equal_res, V_RET));

#include "interval.c"

static ccs_interval_t
mk(void)
{
	ccs_interval_t I;
	memset(&I, 0, sizeof(I));
	I.type = nd_bool() ? CCS_NUMERIC_TYPE_INT : CCS_NUMERIC_TYPE_FLOAT;
	if (I.type == CCS_NUMERIC_TYPE_INT) {
		I.lower.i = nd_i64();
		I.upper.i = nd_i64();
	} else {
		I.lower.f = nd_f64();
		I.upper.f = nd_f64();
	}
	I.lower_included = nd_bool();
	I.upper_included = nd_bool();
	v_assume(wf(&I));
	return I;
}
static void
witness(void)
{
	WI = nd_i64();
	WF = nd_f64();
}

//@unit interval_empty enforce=ccs_interval_empty
void
h_interval_empty(void)
{
	ccs_interval_t a = mk();
	ccs_bool_t     e = CCS_FALSE;
	witness();
	ccs_result_t r = ccs_interval_empty(&a, &e);
	V_NCHECK(post_empty(&a, e, r));
	if (e)
		V_REACH("empty");
	else
		V_REACH("non-empty");
}
//@unit interval_intersect enforce=ccs_interval_intersect
void
h_interval_intersect(void)
{
	ccs_interval_t a = mk(), b = mk(), c = mk(), a0 = a, b0 = b;
	witness();
	ccs_result_t r = ccs_interval_intersect(&a, &b, &c);
	V_NCHECK(post_intersect(&a, &b, &c, r));
	v_check(same(&a, &a0) && same(&b, &b0), "operands unchanged");
	if (r == CCS_RESULT_SUCCESS && c.type == CCS_NUMERIC_TYPE_FLOAT)
		V_REACH("float");
	if (r == CCS_RESULT_SUCCESS && c.type == CCS_NUMERIC_TYPE_INT)
		V_REACH("int");
}
//@unit interval_union enforce=ccs_interval_union
void
h_interval_union(void)
{
	ccs_interval_t a = mk(), b = mk(), c = mk(), a0 = a, b0 = b;
	witness();
	ccs_result_t r = ccs_interval_union(&a, &b, &c);
	V_NCHECK(post_union(&a, &b, &c, r));
	v_check(same(&a, &a0) && same(&b, &b0), "operands unchanged");
	if (r == CCS_RESULT_SUCCESS && c.type == CCS_NUMERIC_TYPE_FLOAT)
		V_REACH("float");
	if (r == CCS_RESULT_SUCCESS && c.type == CCS_NUMERIC_TYPE_INT)
		V_REACH("int");
}
//@unit interval_equal enforce=ccs_interval_equal
void
h_interval_equal(void)
{
	ccs_interval_t a = mk(), b = mk();
	ccs_bool_t     e = CCS_FALSE;
	v_assume(!isempty(&a) && !isempty(&b));
	witness();
	ccs_result_t r = ccs_interval_equal(&a, &b, &e);
	V_NCHECK(post_equal(&a, &b, e, r));
	if (e)
		V_REACH("equal");
	else
		V_REACH("different");
}
/* by-value union argument: checked as assertions around the inlined body */
//@unit interval_include
void
h_interval_include(void)
{
	ccs_interval_t a = mk();
	ccs_numeric_t  v;
	witness();
	if (a.type == CCS_NUMERIC_TYPE_INT) {
		v.i = WI;
		ccs_bool_t r = ccs_interval_include(&a, v);
		v_check(!r == !iin(&a, WI), "include == membership (int)");
		V_REACH("int");
	} else {
		v.f = WF;
		ccs_bool_t r = ccs_interval_include(&a, v);
		v_check(!r == !fin(&a, WF), "include == membership (float)");
		V_REACH("float");
	}
	v.i = 0;
	v_check(!ccs_interval_include(NULL, v), "NULL interval");
}
/* NULL arguments are refused */
//@unit interval_null
void
h_interval_null(void)
{
	ccs_interval_t a = mk(), b = mk(), c = mk(), c0 = c;
	ccs_bool_t     e = CCS_FALSE;
	ccs_interval_t *pa = nd_bool() ? &a : NULL, *pb = nd_bool() ? &b : NULL,
		       *pc = nd_bool() ? &c : NULL;
	ccs_bool_t *pe = nd_bool() ? &e : NULL;
	if (!pa || !pb || !pc) {
		v_check(ccs_interval_intersect(pa, pb, pc) == CCS_RESULT_ERROR_INVALID_VALUE, "intersect NULL");
		v_check(ccs_interval_union(pa, pb, pc) == CCS_RESULT_ERROR_INVALID_VALUE, "union NULL");
		v_check(same(&c, &c0), "no write");
		V_REACH("null3");
	}
	if (!pa || !pb || !pe) {
		v_check(ccs_interval_equal(pa, pb, pe) == CCS_RESULT_ERROR_INVALID_VALUE, "equal NULL");
		V_REACH("null4");
	}
	if (!pa || !pe) {
		v_check(ccs_interval_empty(pa, pe) == CCS_RESULT_ERROR_INVALID_VALUE, "empty NULL");
		V_REACH("null5");
	}
}
/* in-place use: the result may alias an operand */
//@unit interval_alias funcs=ccs_interval_intersect,ccs_interval_union
void
h_interval_alias(void)
{
	ccs_interval_t a = mk(), b = mk(), a0 = a, b0 = b;
	ccs_interval_t *pr = nd_bool() ? &a : &b;
	int             un = nd_bool();
	witness();
	ccs_result_t r = un ? ccs_interval_union(&a, &b, pr) :
			      ccs_interval_intersect(&a, &b, pr);
	v_check(un ? post_union(&a0, &b0, pr, r) : post_intersect(&a0, &b0, pr, r), "in-place result");
	v_check(pr == &a ? same(&b, &b0) : same(&a, &a0), "other operand unchanged");
	V_REACH("done");
}
