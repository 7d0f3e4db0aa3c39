/* Contracts for src/expression.c: the operators, evaluation, construction and
 * accessors. Operand nodes are arbitrary expressions: each evaluates to any
 * value or to an error (the contract of ccs_expression_eval). */
//@property C11
//@assume operands of +, -, * and unary - whose exact result is not a 64 bit integer are outside the domain (C leaves the overflow undefined)
//@assume not-a-number is outside the domain of the comparison operators
//@assume fmod of the C library is a function of its arguments
//@assume parameters meet their contracts: ccs_parameter_get_type, ccs_parameter_check_value, ccs_ordinal_parameter_compare_values (C06, C07), ccs_context_get_parameter_index (C14)
#include "vcommon.h"
#include "expression_internal.h"
#include "vspec.h"
static int FREE_AT_ZERO; /* the last reference frees the block */
#define V_ON_ZERO(o) do { if (FREE_AT_ZERO) free(o); } while (0)
#include "vobj.h"
#pragma pack(push, 1)
struct blk_lit { struct _ccs_expression_s e; _ccs_expression_literal_data_t d; };
struct blk_lits { struct _ccs_expression_s e; _ccs_expression_literal_data_t d; char s[3]; };
struct blk_var { struct _ccs_expression_s e; _ccs_expression_variable_data_t d; };
struct blk_ex1 { struct _ccs_expression_s e; _ccs_expression_data_t d; ccs_expression_t n[1]; };
struct blk_ex2 { struct _ccs_expression_s e; _ccs_expression_data_t d; ccs_expression_t n[2]; };
struct blk_ex3 { struct _ccs_expression_s e; _ccs_expression_data_t d; ccs_expression_t n[3]; };
#pragma pack(pop)
#define V_BLK1 struct blk_lit
#define V_BLK2 struct blk_lits
#define V_BLK3 struct blk_ex2
#define V_BLK4 struct blk_ex1
#define V_BLK5 struct blk_ex3
#include "valloc.h"
#ifdef V_CBMC
double __CPROVER_uninterpreted_fmod(double, double);
#define fmod __CPROVER_uninterpreted_fmod
#undef realloc
static void *
v_growto(void *p, size_t n)
{
	v_assume(p == NULL);
	return malloc(n);
}
#define realloc v_growto
#endif
#define qsort v_qsort
static void
v_qsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *))
{
	void **a = (void **)base;
	(void)sz;
	for (size_t i = 1; i < n; i++)
		for (size_t j = i; j > 0 && cmp(a + j - 1, a + j) > 0; j--) {
			void *t  = a[j];
			a[j]     = a[j - 1];
			a[j - 1] = t;
		}
}
#include "expression.c"
#undef realloc
ccs_result_t
ccs_object_get_type(ccs_object_t o, ccs_object_type_t *t)
{
	CCS_REFUTE(!o, CCS_RESULT_ERROR_INVALID_OBJECT);
	*t = ((_ccs_object_template_t *)o)->obj.type;
	return CCS_RESULT_SUCCESS;
}
/* operand nodes */
static ccs_datum_t                     V[3];
static int                             FAIL[3], EVALS[3];
static _ccs_object_template_t          PAR[2], CTX;
static ccs_parameter_type_t            PT[2];
static ccs_datum_t                     VALS[2];
static _ccs_expression_variable_data_t ND[3];
static struct _ccs_expression_s        N[3];
static int                             CHK[2], CHKERR[2];
static int                             CMP, CMPERR;
static ccs_result_t
s_eval(_ccs_expression_data_t *d, ccs_context_t c, ccs_datum_t *values, ccs_datum_t *r)
{
	v_check(c == (ccs_context_t)&CTX && values == VALS, "operands are evaluated in the same context");
	int k = d == &ND[0].expr ? 0 : d == &ND[1].expr ? 1 : 2;
	v_check(d == &ND[k].expr, "an operand of the node");
	EVALS[k]++;
	if (FAIL[k])
		return CCS_RESULT_ERROR_INVALID_CONFIGURATION;
	*r = V[k];
	return CCS_RESULT_SUCCESS;
}
static _ccs_expression_ops_t s_ops = {{NULL, NULL, NULL}, &s_eval};
ccs_result_t
ccs_parameter_get_type(ccs_parameter_t p, ccs_parameter_type_t *t)
{
	*t = PT[p == (ccs_parameter_t)&PAR[0] ? 0 : 1];
	return CCS_RESULT_SUCCESS;
}
ccs_result_t
ccs_parameter_check_value(ccs_parameter_t p, ccs_datum_t v, ccs_bool_t *ret)
{
	int k = p == (ccs_parameter_t)&PAR[0] ? 0 : 1;
	(void)v;
	if (CHKERR[k])
		return CCS_RESULT_ERROR_INVALID_OBJECT;
	*ret = CHK[k] ? CCS_TRUE : CCS_FALSE;
	return CCS_RESULT_SUCCESS;
}
static ccs_parameter_t CMPPAR;
ccs_result_t
ccs_ordinal_parameter_compare_values(ccs_parameter_t p, ccs_datum_t a, ccs_datum_t b, ccs_int_t *c)
{
	v_check(datum_same(&a, &V[0]) && datum_same(&b, &V[1]), "ordinal comparison of the operands, in order");
	CMPPAR = p;
	if (CMPERR)
		return CCS_RESULT_ERROR_INVALID_VALUE;
	*c = CMP;
	return CCS_RESULT_SUCCESS;
}
static size_t IDX;
static int    IDXERR;
ccs_result_t
ccs_context_get_parameter_index(ccs_context_t c, ccs_parameter_t p, size_t *i)
{
	(void)p;
	v_check(c == (ccs_context_t)&CTX, "looked up in the context given");
	if (IDXERR)
		return CCS_RESULT_ERROR_INVALID_PARAMETER;
	*i = IDX;
	return CCS_RESULT_SUCCESS;
}
#define NK 6
static const ccs_data_type_t KINDS[NK] = {CCS_DATA_TYPE_NONE, CCS_DATA_TYPE_INT, CCS_DATA_TYPE_FLOAT, CCS_DATA_TYPE_BOOL, CCS_DATA_TYPE_STRING, CCS_DATA_TYPE_INACTIVE};
static const char *const STR[4] = {NULL, "a", "ab", "b"};
static ccs_datum_t
mk(ccs_data_type_t t)
{
	ccs_datum_t d;
	memset(&d, 0, sizeof(d));
	if (t == CCS_DATA_TYPE_FLOAT)
		d.value.f = nd_f64();
	else if (t == CCS_DATA_TYPE_INT)
		d.value.i = nd_i64();
	else if (t == CCS_DATA_TYPE_BOOL)
		d.value.i = nd_bool() ? CCS_TRUE : CCS_FALSE;
	else if (t == CCS_DATA_TYPE_STRING)
		d.value.s = "a";
	d.type = t;
	return d;
}
static void
node(int k, int variable)
{
	_ccs_object_init(&N[k].obj, CCS_OBJECT_TYPE_EXPRESSION, (_ccs_object_ops_t *)&s_ops);
	N[k].data            = &ND[k].expr;
	ND[k].expr.type      = variable ? CCS_EXPRESSION_TYPE_VARIABLE : CCS_EXPRESSION_TYPE_LITERAL;
	ND[k].expr.num_nodes = 0;
	ND[k].expr.nodes     = NULL;
	ND[k].parameter      = k < 2 ? (ccs_parameter_t)&PAR[k] : NULL;
	EVALS[k]             = 0;
	FAIL[k]              = 0;
}
static void
setup(int vl, int vr)
{
	CTX.obj.type = CCS_OBJECT_TYPE_CONFIGURATION_SPACE;
	PAR[0].obj.type = PAR[1].obj.type = CCS_OBJECT_TYPE_PARAMETER;
	PAR[0].data = PAR[1].data = (void *)&CTX;
	node(0, vl);
	node(1, vr);
	node(2, 0);
	FAIL[0] = nd_bool();
	FAIL[1] = nd_bool();
	for (int k = 0; k < 2; k++) {
		CHK[k]    = nd_bool();
		CHKERR[k] = nd_bool();
	}
	CMP    = (int)nd_upto(2) - 1;
	CMPERR = nd_bool();
	CMPPAR = NULL;
}
/* evaluates an operator node over operands 0 and 1 */
static ccs_result_t
run(ccs_expression_type_t t, size_t n, ccs_datum_t *r)
{
	static _ccs_expression_data_t   d;
	static struct _ccs_expression_s e;
	static ccs_expression_t         kids[2];
	kids[0]     = &N[0];
	kids[1]     = &N[1];
	d.type      = t;
	d.num_nodes = n;
	d.nodes     = kids;
	_ccs_object_init(&e.obj, CCS_OBJECT_TYPE_EXPRESSION, (_ccs_object_ops_t *)_ccs_expression_ops_broker(t));
	e.data = &d;
	memset(r, 0, sizeof(*r));
	return ccs_expression_eval(&e, (ccs_context_t)&CTX, VALS, r);
}
#define IS(d, T) ((d).type == CCS_DATA_TYPE_##T)
#define NUM(d)   (IS(d, INT) || IS(d, FLOAT))
#define AS_F(d)  (IS(d, INT) ? (double)(d).value.i : (d).value.f)
static int
is_bool(const ccs_datum_t *r, int b)
{
	return r->type == CCS_DATA_TYPE_BOOL && r->value.i == (b ? CCS_TRUE : CCS_FALSE);
}
//@unit expr_logic unwind=8 funcs=_ccs_expr_or_eval,_ccs_expr_and_eval,_ccs_expr_not_eval,ccs_expression_eval,_ccs_expr_node_eval,_ccs_expression_ops_broker
void
h_expr_logic(void)
{
	ccs_datum_t  r;
	ccs_result_t e;
	for (int i = 0; i < NK; i++)
		for (int j = 0; j < NK; j++) {
			setup(0, 0);
			V[0]     = mk(KINDS[i]);
			V[1]     = mk(KINDS[j]);
			int f    = FAIL[0] || FAIL[1];
			int t0   = IS(V[0], BOOL) && V[0].value.i, t1 = IS(V[1], BOOL) && V[1].value.i;
			int in   = IS(V[0], INACTIVE) || IS(V[1], INACTIVE);
			int kind = (IS(V[0], BOOL) || IS(V[0], INACTIVE)) && (IS(V[1], BOOL) || IS(V[1], INACTIVE));
			e = run(CCS_EXPRESSION_TYPE_OR, 2, &r);
			v_check(IFF(e == CCS_RESULT_SUCCESS, !f && kind), "or: booleans (or inactive) only");
			if (e == CCS_RESULT_SUCCESS)
				v_check(t0 || t1 ? is_bool(&r, 1) : in ? IS(r, INACTIVE) : is_bool(&r, 0), "or: true if one is, else inactive if one is, else false");
			e = run(CCS_EXPRESSION_TYPE_AND, 2, &r);
			v_check(IFF(e == CCS_RESULT_SUCCESS, !f && (in || kind)), "and: booleans only");
			if (e == CCS_RESULT_SUCCESS)
				v_check(in ? IS(r, INACTIVE) : is_bool(&r, t0 && t1), "and: inactive if one is, else conjunction");
			if (j == 0) {
				e = run(CCS_EXPRESSION_TYPE_NOT, 1, &r);
				v_check(IFF(e == CCS_RESULT_SUCCESS, !FAIL[0] && (IS(V[0], BOOL) || IS(V[0], INACTIVE))), "not: boolean only");
				if (e == CCS_RESULT_SUCCESS)
					v_check(IS(V[0], INACTIVE) ? IS(r, INACTIVE) : is_bool(&r, !t0), "not: negation");
			}
		}
	V_REACH("logic");
}
/* arithmetic */
static int
exact(ccs_expression_type_t t)
{
	ccs_int_t x;
	if (!IS(V[0], INT) || !IS(V[1], INT))
		return 1;
	return t == CCS_EXPRESSION_TYPE_ADD ? !__builtin_add_overflow(V[0].value.i, V[1].value.i, &x) :
	       t == CCS_EXPRESSION_TYPE_SUBSTRACT ? !__builtin_sub_overflow(V[0].value.i, V[1].value.i, &x) : 1;
}
static int
sameval(double a, double b)
{
	return a == b || (v_isnan(a) && v_isnan(b));
}
/* one evaluation over the operands V[0], V[1] */
static void
arith1(ccs_expression_type_t t)
{
	ccs_datum_t r;
	{
			v_assume(exact(t));
			int isdiv = t == CCS_EXPRESSION_TYPE_DIVIDE || t == CCS_EXPRESSION_TYPE_MODULO;
			int in    = IS(V[0], INACTIVE) || IS(V[1], INACTIVE);
			int num   = NUM(V[0]) && NUM(V[1]);
			int zero  = (IS(V[1], INT) && V[1].value.i == 0) || (IS(V[1], FLOAT) && V[1].value.f == 0.0);
			int trap  = IS(V[0], INT) && IS(V[1], INT) && V[0].value.i == CCS_INT_MIN && V[1].value.i == -1;
			ccs_result_t e = run(t, 2, &r);
			if (t == CCS_EXPRESSION_TYPE_DIVIDE && trap && num)
				v_check(e < 0, "quotient out of range refused");
			else
				v_check(IFF(e == CCS_RESULT_SUCCESS, !FAIL[0] && !FAIL[1] && (in || (num && !(isdiv && zero)))), "arithmetic: numbers only, no division by zero");
			if (e != CCS_RESULT_SUCCESS)
				return;
			if (in) {
				v_check(IS(r, INACTIVE), "arithmetic: inactive operand");
				return;
			}
			if (IS(V[0], INT) && IS(V[1], INT)) {
				ccs_int_t a = V[0].value.i, b = V[1].value.i;
				v_check(IS(r, INT), "integers stay integer");
				if (t == CCS_EXPRESSION_TYPE_ADD)
					v_check(r.value.i == a + b, "sum of integers");
				else if (t == CCS_EXPRESSION_TYPE_SUBSTRACT)
					v_check(r.value.i == a - b, "difference of integers");
				else if (t == CCS_EXPRESSION_TYPE_MULTIPLY)
					v_check(r.value.i == a * b, "product of integers");
				else if (t == CCS_EXPRESSION_TYPE_DIVIDE)
					v_check(r.value.i == a / b, "quotient of integers");
				else
					v_check(r.value.i == (b == -1 ? 0 : a % b), "remainder of integers");
			} else {
				v_check(IS(r, FLOAT), "mixed arithmetic is floating point");
				if (t == CCS_EXPRESSION_TYPE_ADD)
					v_check(sameval(r.value.f, IS(V[0], INT) ? V[0].value.i + V[1].value.f : IS(V[1], INT) ? V[0].value.f + V[1].value.i : V[0].value.f + V[1].value.f), "sum");
				else if (t == CCS_EXPRESSION_TYPE_SUBSTRACT)
					v_check(sameval(r.value.f, IS(V[0], INT) ? V[0].value.i - V[1].value.f : IS(V[1], INT) ? V[0].value.f - V[1].value.i : V[0].value.f - V[1].value.f), "difference");
				else if (t == CCS_EXPRESSION_TYPE_MULTIPLY)
					v_check(sameval(r.value.f, IS(V[0], INT) ? V[0].value.i * V[1].value.f : IS(V[1], INT) ? V[0].value.f * V[1].value.i : V[0].value.f * V[1].value.f), "product");
				else if (t == CCS_EXPRESSION_TYPE_DIVIDE)
					v_check(sameval(r.value.f, IS(V[0], INT) ? V[0].value.i / V[1].value.f : IS(V[1], INT) ? V[0].value.f / V[1].value.i : V[0].value.f / V[1].value.f), "quotient");
				else
					v_check(sameval(r.value.f, fmod(AS_F(V[0]), AS_F(V[1]))), "remainder");
			}
		}
}
#define NTI 9
static const ccs_int_t TI[NTI] = {0, 1, -1, 2, 7, -13, CCS_INT_MAX, CCS_INT_MIN, (ccs_int_t)1 << 33};
#define NTF 8
static const double    TF[NTF] = {0.0, -0.0, 1.0, -2.5, 0.1, 1e300, -1e-300, INFINITY};
static int
toobig(ccs_expression_type_t t, ccs_int_t a, ccs_int_t b)
{
	ccs_int_t x;
	return t == CCS_EXPRESSION_TYPE_MULTIPLY && __builtin_mul_overflow(a, b, &x);
}
static void
arith_pairs(ccs_expression_type_t t, int i, int j)
{
	static const ccs_int_t DI[5] = {0, -1, 7, -13, CCS_INT_MIN};
	static const double    DF[5] = {0.0, -0.0, -2.5, 0.1, INFINITY};
	for (int x = 0; x < 5; x++)
		for (int y = 0; y < 5; y++) {
			V[0] = i == 1 ? ccs_int(DI[x]) : ccs_float(DF[x]);
			V[1] = j == 1 ? ccs_int(DI[y]) : ccs_float(DF[y]);
			arith1(t);
		}
}
/* left operand of kind V_CASE, right operand of every kind */
static void
arith(ccs_expression_type_t t, int tab)
{
	int i = V_CASE;
	for (int j = 0; j < NK; j++) {
		setup(0, 0);
		V[0] = mk(KINDS[i]);
		V[1] = mk(KINDS[j]);
		if (tab == 2 && i >= 1 && i <= 2 && j >= 1 && j <= 2) {
			FAIL[0] = FAIL[1] = 0;
			arith_pairs(t, i, j);
			continue;
		}
		if (i >= 1 && i <= 2 && j >= 1 && j <= 2 && (tab || i != 1 || j != 1)) {
			if (i == 1)
				V[0].value.i = TI[nd_upto(NTI - 1)];
			else
				V[0].value.f = TF[nd_upto(NTF - 1)];
			if (j == 1)
				V[1].value.i = TI[nd_upto(NTI - 1)];
			else
				V[1].value.f = TF[nd_upto(NTF - 1)];
			if (i == 1 && j == 1)
				v_assume(!toobig(t, V[0].value.i, V[1].value.i));
		}
		arith1(t);
	}
}
//@unit expr_add cases=6 bcases=1,2 unwind=8 bounded="floating point operands from a table of 8 (integers and other kinds: all values)" funcs=_ccs_expr_add_eval
void
h_expr_add(void)
{
	arith(CCS_EXPRESSION_TYPE_ADD, 0);
	V_REACH("add");
}
//@unit expr_sub cases=6 bcases=1,2 unwind=8 bounded="floating point operands from a table of 8 (integers and other kinds: all values)" funcs=_ccs_expr_substract_eval
void
h_expr_sub(void)
{
	arith(CCS_EXPRESSION_TYPE_SUBSTRACT, 0);
	V_REACH("sub");
}
//@unit expr_mul cases=6 bcases=1,2 unwind=8 bounded="numbers from a table of 9 integers and 8 floats (other kinds: all values)" funcs=_ccs_expr_multiply_eval
void
h_expr_mul(void)
{
	arith(CCS_EXPRESSION_TYPE_MULTIPLY, 1);
	V_REACH("mul");
}
//@unit expr_div cases=6 bcases=1,2 unwind=8 bounded="numbers from a table of 5 integers and 5 floats (other kinds: all values)" funcs=_ccs_expr_divide_eval
void
h_expr_div(void)
{
	arith(CCS_EXPRESSION_TYPE_DIVIDE, 2);
	V_REACH("div");
}
//@unit expr_mod cases=6 bcases=1,2 unwind=8 bounded="numbers from a table of 5 integers and 5 floats (other kinds: all values)" funcs=_ccs_expr_modulo_eval
void
h_expr_mod(void)
{
	arith(CCS_EXPRESSION_TYPE_MODULO, 2);
	V_REACH("mod");
}
//@unit expr_sign unwind=8 funcs=_ccs_expr_positive_eval,_ccs_expr_negative_eval
void
h_expr_sign(void)
{
	ccs_datum_t  r;
	ccs_result_t e;
	for (int i = 0; i < NK; i++) {
		setup(0, 0);
		V[0] = mk(KINDS[i]);
		int ok = !FAIL[0] && (NUM(V[0]) || IS(V[0], INACTIVE));
		e = run(CCS_EXPRESSION_TYPE_POSITIVE, 1, &r);
		v_check(IFF(e == CCS_RESULT_SUCCESS, ok), "+: numbers only");
		if (e == CCS_RESULT_SUCCESS)
			v_check(r.type == V[0].type && (!IS(r, INT) || r.value.i == V[0].value.i) && (!IS(r, FLOAT) || sameval(r.value.f, V[0].value.f)), "+: the value itself");
		v_assume(!(IS(V[0], INT) && V[0].value.i == CCS_INT_MIN));
		e = run(CCS_EXPRESSION_TYPE_NEGATIVE, 1, &r);
		v_check(IFF(e == CCS_RESULT_SUCCESS, ok), "-: numbers only");
		if (e == CCS_RESULT_SUCCESS)
			v_check(r.type == V[0].type && (!IS(r, INT) || r.value.i == -V[0].value.i) && (!IS(r, FLOAT) || sameval(r.value.f, -V[0].value.f)), "-: the opposite");
	}
	V_REACH("sign");
}
/* comparisons. Types of operand: PT_NONE (not a variable) or a parameter type */
static const ccs_parameter_type_t PTS[5] = {CCS_PARAMETER_TYPE_NUMERICAL, CCS_PARAMETER_TYPE_CATEGORICAL, CCS_PARAMETER_TYPE_ORDINAL, CCS_PARAMETER_TYPE_DISCRETE, CCS_PARAMETER_TYPE_STRING};
/* may value v be compared to the operand k (a variable of type PT[k])? 1 yes, 0 no */
static int
fits(int k, int variable, const ccs_datum_t *v)
{
	if (!variable)
		return 1;
	if (PT[k] == CCS_PARAMETER_TYPE_ORDINAL || PT[k] == CCS_PARAMETER_TYPE_CATEGORICAL)
		return !CHKERR[k] && CHK[k];
	if (PT[k] == CCS_PARAMETER_TYPE_NUMERICAL || PT[k] == CCS_PARAMETER_TYPE_DISCRETE)
		return NUM(*v);
	return 1;
}
static int
equal(const ccs_datum_t *a, const ccs_datum_t *b)
{
	if (NUM(*a) && NUM(*b))
		return IS(*a, INT) && IS(*b, INT) ? a->value.i == b->value.i : AS_F(*a) == AS_F(*b);
	if (a->type != b->type)
		return 0;
	if (IS(*a, STRING))
		return a->value.s == b->value.s || (a->value.s && b->value.s && strcmp(a->value.s, b->value.s) == 0);
	return IS(*a, NONE) || a->value.i == b->value.i;
}
static void
one_equal(int vl, int vr)
{
	ccs_datum_t  r;
	ccs_result_t e;
	v_assume(!(IS(V[0], FLOAT) && v_isnan(V[0].value.f)) && !(IS(V[1], FLOAT) && v_isnan(V[1].value.f)));
	int in = IS(V[0], INACTIVE) || IS(V[1], INACTIVE);
	int comparable = V[0].type == V[1].type || (NUM(V[0]) && NUM(V[1]));
	int ok = !FAIL[0] && !FAIL[1] && (in || (fits(0, vl, &V[1]) && fits(1, vr, &V[0]) && (vl || vr || comparable)));
	e = run(CCS_EXPRESSION_TYPE_EQUAL, 2, &r);
	v_check(IFF(e == CCS_RESULT_SUCCESS, ok), "==: comparable values only");
	if (e == CCS_RESULT_SUCCESS)
		v_check(in ? IS(r, INACTIVE) : is_bool(&r, equal(&V[0], &V[1])), "==: equality of the values");
	e = run(CCS_EXPRESSION_TYPE_NOT_EQUAL, 2, &r);
	v_check(IFF(e == CCS_RESULT_SUCCESS, ok), "!=: comparable values only");
	if (e == CCS_RESULT_SUCCESS)
		v_check(in ? IS(r, INACTIVE) : is_bool(&r, !equal(&V[0], &V[1])), "!=: negation of equality");
}
static void
one_order(int vl, int vr)
{
	static const ccs_expression_type_t OPS[4] = {CCS_EXPRESSION_TYPE_LESS, CCS_EXPRESSION_TYPE_GREATER, CCS_EXPRESSION_TYPE_LESS_OR_EQUAL, CCS_EXPRESSION_TYPE_GREATER_OR_EQUAL};
	ccs_datum_t  r;
	ccs_result_t e;
	v_assume(!(IS(V[0], FLOAT) && v_isnan(V[0].value.f)) && !(IS(V[1], FLOAT) && v_isnan(V[1].value.f)));
	int in = IS(V[0], INACTIVE) || IS(V[1], INACTIVE);
	int cat = (vl && PT[0] == CCS_PARAMETER_TYPE_CATEGORICAL) || (vr && PT[1] == CCS_PARAMETER_TYPE_CATEGORICAL);
	int ol = vl && PT[0] == CCS_PARAMETER_TYPE_ORDINAL, orr = vr && PT[1] == CCS_PARAMETER_TYPE_ORDINAL;
	int comparable = (NUM(V[0]) && NUM(V[1])) || (IS(V[0], STRING) && IS(V[1], STRING));
	int ok = !FAIL[0] && !FAIL[1] && !cat && (in || (fits(0, vl, &V[1]) && fits(1, vr, &V[0]) && (ol || orr ? !CMPERR : comparable)));
	int c;
	if (ol || orr)
		c = CMP;
	else if (IS(V[0], STRING) && IS(V[1], STRING)) {
		const char *x = V[0].value.s, *y = V[1].value.s;
		c = x == y ? 0 : !x ? -1 : !y ? 1 : strcmp(x, y);
	} else if (IS(V[0], INT) && IS(V[1], INT))
		c = V[0].value.i < V[1].value.i ? -1 : V[0].value.i > V[1].value.i;
	else
		c = AS_F(V[0]) < AS_F(V[1]) ? -1 : AS_F(V[0]) > AS_F(V[1]);
	for (int o = 0; o < 4; o++) {
		CMPPAR = NULL;
		e = run(OPS[o], 2, &r);
		v_check(IFF(e == CCS_RESULT_SUCCESS, ok), "order: comparable values only");
		if (e == CCS_RESULT_SUCCESS) {
			v_check(in ? IS(r, INACTIVE) : is_bool(&r, o == 0 ? c < 0 : o == 1 ? c > 0 : o == 2 ? c <= 0 : c >= 0), "order: order of the values");
			v_check(in || CMPPAR == (ol ? (ccs_parameter_t)&PAR[0] : orr ? (ccs_parameter_t)&PAR[1] : NULL), "order: the parameter's order for ordinals");
		}
	}
}
/* left operand of kind V_CASE, right operand of every kind */
static void
compare_all(void (*one)(int, int), int vl, int vr)
{
	for (int j = 0; j < NK; j++) {
		setup(vl, vr);
		PT[0] = PTS[nd_upto(4)];
		PT[1] = PTS[nd_upto(4)];
		V[0]  = mk(KINDS[V_CASE]);
		V[1]  = mk(KINDS[j]);
		if (IS(V[0], INT) && (IS(V[1], FLOAT) || (vl && vr)))
			V[0].value.i = TI[nd_upto(NTI - 1)];
		if (IS(V[0], FLOAT) && IS(V[1], INT))
			V[1].value.i = TI[nd_upto(NTI - 1)];
		one(vl, vr);
	}
}
//@unit expr_equal_ll cases=6 bcases=1,2 unwind=9 bounded="integers compared with floating point numbers from a table of 9 (all other pairs of values: all)" funcs=_ccs_expr_equal_eval,_ccs_expr_not_equal_eval,_ccs_datum_test_equal_generic
void
h_expr_equal_ll(void)
{
	compare_all(one_equal, 0, 0);
	V_REACH("equal");
}
//@unit expr_equal_lv cases=6 bcases=1,2 unwind=9 bounded="integers compared with floating point numbers from a table of 9 (all other pairs of values: all)" funcs=_ccs_expr_equal_eval,_ccs_expr_not_equal_eval,_ccs_datum_test_equal_generic
void
h_expr_equal_lv(void)
{
	compare_all(one_equal, 0, 1);
	V_REACH("equal");
}
//@unit expr_equal_vl cases=6 bcases=1,2 unwind=9 bounded="integers compared with floating point numbers from a table of 9 (all other pairs of values: all)" funcs=_ccs_expr_equal_eval,_ccs_expr_not_equal_eval,_ccs_datum_test_equal_generic
void
h_expr_equal_vl(void)
{
	compare_all(one_equal, 1, 0);
	V_REACH("equal");
}
//@unit expr_equal_vv cases=6 bcases=1,2 unwind=9 bounded="integers compared with floating point numbers from a table of 9 (all other pairs of values: all)" funcs=_ccs_expr_equal_eval,_ccs_expr_not_equal_eval,_ccs_datum_test_equal_generic
void
h_expr_equal_vv(void)
{
	compare_all(one_equal, 1, 1);
	V_REACH("equal");
}
//@unit expr_order_ll cases=6 bcases=1,2 unwind=9 bounded="integers compared with floating point numbers from a table of 9 (all other pairs of values: all)" funcs=_ccs_expr_less_eval,_ccs_expr_greater_eval,_ccs_expr_less_or_equal_eval,_ccs_expr_greater_or_equal_eval,_ccs_datum_cmp_generic
void
h_expr_order_ll(void)
{
	compare_all(one_order, 0, 0);
	V_REACH("order");
}
//@unit expr_order_lv cases=6 bcases=1,2 unwind=9 bounded="integers compared with floating point numbers from a table of 9 (all other pairs of values: all)" funcs=_ccs_expr_less_eval,_ccs_expr_greater_eval,_ccs_expr_less_or_equal_eval,_ccs_expr_greater_or_equal_eval,_ccs_datum_cmp_generic
void
h_expr_order_lv(void)
{
	compare_all(one_order, 0, 1);
	V_REACH("order");
}
//@unit expr_order_vl cases=6 bcases=1,2 unwind=9 bounded="integers compared with floating point numbers from a table of 9 (all other pairs of values: all)" funcs=_ccs_expr_less_eval,_ccs_expr_greater_eval,_ccs_expr_less_or_equal_eval,_ccs_expr_greater_or_equal_eval,_ccs_datum_cmp_generic
void
h_expr_order_vl(void)
{
	compare_all(one_order, 1, 0);
	V_REACH("order");
}
//@unit expr_order_vv cases=6 bcases=1,2 unwind=9 bounded="integers compared with floating point numbers from a table of 9 (all other pairs of values: all)" funcs=_ccs_expr_less_eval,_ccs_expr_greater_eval,_ccs_expr_less_or_equal_eval,_ccs_expr_greater_or_equal_eval,_ccs_datum_cmp_generic
void
h_expr_order_vv(void)
{
	compare_all(one_order, 1, 1);
	V_REACH("order");
}
//@unit expr_strings unwind=8 bounded="strings NULL, a, ab, b" funcs=_ccs_string_cmp,_ccs_datum_test_equal_generic,_ccs_datum_cmp_generic
void
h_expr_strings(void)
{
	for (int i = 0; i < 4; i++)
		for (int j = 0; j < 4; j++) {
			setup(0, 0);
			V[0] = mk(CCS_DATA_TYPE_STRING);
			V[1] = mk(CCS_DATA_TYPE_STRING);
			V[0].value.s = STR[i];
			V[1].value.s = STR[j];
			one_equal(0, 0);
			one_order(0, 0);
		}
	V_REACH("strings");
}
/* membership: operand 0 in the list (1, 2) */
static void
member(int vl, size_t n)
{
	static _ccs_expression_data_t   ld, d;
	static struct _ccs_expression_s l, e;
	static ccs_expression_t         items[2], kids[2];
	ccs_datum_t                     r;
	FAIL[2]      = nd_bool();
	items[0]     = &N[1];
	items[1]     = &N[2];
	ld.type      = CCS_EXPRESSION_TYPE_LIST;
	ld.num_nodes = n;
	ld.nodes     = items;
	_ccs_object_init(&l.obj, CCS_OBJECT_TYPE_EXPRESSION, (_ccs_object_ops_t *)_ccs_expression_ops_broker(CCS_EXPRESSION_TYPE_LIST));
	l.data      = &ld;
	kids[0]     = &N[0];
	kids[1]     = &l;
	d.type      = CCS_EXPRESSION_TYPE_IN;
	d.num_nodes = 2;
	d.nodes     = kids;
	_ccs_object_init(&e.obj, CCS_OBJECT_TYPE_EXPRESSION, (_ccs_object_ops_t *)_ccs_expression_ops_broker(CCS_EXPRESSION_TYPE_IN));
	e.data = &d;
	for (int k = 0; k < 3; k++)
		v_assume(!(IS(V[k], FLOAT) && v_isnan(V[k].value.f)));
	memset(&r, 0, sizeof(r));
	ccs_result_t x = ccs_expression_eval(&e, (ccs_context_t)&CTX, VALS, &r);
	int err = FAIL[0], found = 0, in = 0;
	if (!err && IS(V[0], INACTIVE)) {
		v_check(x == CCS_RESULT_SUCCESS && IS(r, INACTIVE), "in: inactive operand");
		return;
	}
	for (size_t k = 0; k < n && !err && !found; k++) {
		if (FAIL[k + 1] || !fits(0, vl, &V[k + 1]))
			err = 1;
		else if (IS(V[k + 1], INACTIVE))
			in = 1;
		else
			found = equal(&V[0], &V[k + 1]);
	}
	v_check(IFF(x == CCS_RESULT_SUCCESS, !err), "in: errors of the items are reported");
	if (x == CCS_RESULT_SUCCESS)
		v_check(found ? is_bool(&r, 1) : in ? IS(r, INACTIVE) : is_bool(&r, 0), "in: true exactly when an item equals the value");
	/* a list is not a value */
	x = ccs_expression_eval(&l, (ccs_context_t)&CTX, VALS, &r);
	v_check(x < 0, "list: not evaluable");
	/* the right operand must be a list */
	kids[1] = &N[1];
	x = ccs_expression_eval(&e, (ccs_context_t)&CTX, VALS, &r);
	v_check(x < 0, "in: right operand must be a list");
}
//@unit expr_in cases=12 unwind=9 bounded="lists of up to 2 items, integers from a table of 9" funcs=_ccs_expr_in_eval,_ccs_expr_list_eval,ccs_expression_list_eval_node,ccs_expression_get_num_nodes,ccs_expression_get_type
void
h_expr_in(void)
{
	int i = V_CASE / 2, v = V_CASE % 2;
	for (int j = 0; j < NK; j++) {
		setup(v, 0);
		PT[0] = PTS[nd_upto(4)];
		V[0]  = mk(KINDS[i]);
		V[1]  = mk(KINDS[j]);
		V[2]  = mk(KINDS[(i + 3 * v) % NK]);
		for (int k = 0; k < 3; k++)
			if (IS(V[k], INT))
				V[k].value.i = TI[nd_upto(NTI - 1)];
		member(v, 2);
	}
	setup(v, 0);
	PT[0] = PTS[nd_upto(4)];
	member(v, v);
	V_REACH("in");
}
//@unit expr_variable unwind=4 funcs=_ccs_expr_variable_eval,_ccs_expr_literal_eval,ccs_literal_get_value,ccs_variable_get_parameter prop=C11,C14
void
h_expr_variable(void)
{
	static _ccs_expression_variable_data_t d;
	static _ccs_expression_literal_data_t  ld;
	static struct _ccs_expression_s        e, l;
	ccs_datum_t                            r;
	ccs_parameter_t                        p = NULL;
	setup(0, 0);
	IDX     = nd_upto(1);
	IDXERR  = nd_bool();
	VALS[0] = mk_scalar();
	VALS[1] = mk_scalar();
	_ccs_object_init(&e.obj, CCS_OBJECT_TYPE_EXPRESSION, (_ccs_object_ops_t *)_ccs_expression_ops_broker(CCS_EXPRESSION_TYPE_VARIABLE));
	e.data      = &d.expr;
	d.expr.type = CCS_EXPRESSION_TYPE_VARIABLE;
	d.parameter = (ccs_parameter_t)&PAR[0];
	ccs_result_t x = ccs_expression_eval(&e, (ccs_context_t)&CTX, VALS, &r);
	v_check(IFF(x == CCS_RESULT_SUCCESS, !IDXERR), "variable: a parameter of the context");
	if (x == CCS_RESULT_SUCCESS)
		v_check(datum_same(&r, &VALS[IDX]), "variable: its value in the configuration");
	v_check(ccs_expression_eval(&e, (ccs_context_t)&CTX, NULL, &r) < 0, "variable: values needed");
	_ccs_object_init(&l.obj, CCS_OBJECT_TYPE_EXPRESSION, (_ccs_object_ops_t *)_ccs_expression_ops_broker(CCS_EXPRESSION_TYPE_LITERAL));
	l.data       = &ld.expr;
	ld.expr.type = CCS_EXPRESSION_TYPE_LITERAL;
	ld.value     = mk_scalar();
	v_check(ccs_expression_eval(&l, NULL, NULL, &r) == CCS_RESULT_SUCCESS && datum_same(&r, &ld.value), "literal: its value");
	v_check(ccs_expression_eval(&l, NULL, NULL, NULL) < 0 && ccs_expression_eval(NULL, NULL, NULL, &r) < 0, "bad arguments refused");
	v_check(ccs_literal_get_value(&l, &r) == CCS_RESULT_SUCCESS && datum_same(&r, &ld.value) && ccs_literal_get_value(&e, &r) < 0 && ccs_literal_get_value(&l, NULL) < 0, "literal value");
	v_check(ccs_variable_get_parameter(&e, &p) == CCS_RESULT_SUCCESS && p == (ccs_parameter_t)&PAR[0] && ccs_variable_get_parameter(&l, &p) < 0 && ccs_variable_get_parameter(&e, NULL) < 0, "variable parameter");
	V_REACH("variable");
}
/* construction */
static void
release_tree(ccs_expression_t e, ccs_expression_type_t t)
{
	/* what ccs_release_object does at the last reference, for nodes made here */
	if (REFS(e) == 0) {
		v_check(_ccs_expression_ops_broker(t)->obj_ops.del((ccs_object_t)e) == CCS_RESULT_SUCCESS, "deleted");
		free(e);
	}
}
//@unit expr_literal cases=7 prop=C11,C12 unwind=5 funcs=ccs_create_literal,_ccs_expression_del flags="--memory-leak-check"
void
h_expr_literal(void)
{
	char s[3];
	int i = V_CASE;
		for (int q = 0; q < 2; q++) {
			ccs_expression_t e = NULL;
			ccs_datum_t      d = i < NK ? mk(KINDS[i]) : mk(CCS_DATA_TYPE_NONE), r;
			if (i == NK)
				d.type = CCS_DATA_TYPE_OBJECT;
			s[0] = 'a';
			s[1] = 'b';
			s[2] = 0;
			if (IS(d, STRING))
				d.value.s = q ? s : NULL;
			d.flags = nd_u32();
			V_OOM   = nd_bool();
			ccs_result_t x  = ccs_create_literal(d, &e);
			int          ok = !IS(d, INACTIVE) && !IS(d, OBJECT);
			v_check(ok ? x == CCS_RESULT_SUCCESS || (V_OOM && x == CCS_RESULT_ERROR_OUT_OF_MEMORY) : x < 0, "literal: plain values only");
			V_OOM = 0;
			if (x == CCS_RESULT_SUCCESS) {
				v_check(REFS(e) == 1 && e->obj.type == CCS_OBJECT_TYPE_EXPRESSION && e->data->num_nodes == 0, "literal: one reference");
				s[0] = 'z'; /* the caller's string may change */
				v_check(ccs_expression_get_ops(e) == _ccs_expression_ops_broker(CCS_EXPRESSION_TYPE_LITERAL) && ccs_literal_get_value(e, &r) == CCS_RESULT_SUCCESS && r.type == d.type && r.flags == CCS_DATUM_FLAG_DEFAULT, "literal: kind");
				if (IS(d, STRING) && q)
					v_check(r.value.s != s && r.value.s[0] == 'a' && r.value.s[1] == 'b' && r.value.s[2] == 0, "literal: owns a copy of its string");
				else if (!IS(d, NONE))
					v_check(r.value.i == d.value.i, "literal: value");
				e->obj.refcount = 0;
				release_tree(e, CCS_EXPRESSION_TYPE_LITERAL);
			}
		}
	v_check(ccs_create_literal(ccs_none, NULL) < 0, "bad argument refused");
	V_REACH("literal");
}
//@unit expr_create_var prop=C11,C12 unwind=4 funcs=ccs_create_variable,_ccs_expr_variable_del flags="--memory-leak-check"
void
h_expr_create_var(void)
{
	ccs_expression_t e = NULL;
	PAR[0].obj.type     = nd_bool() ? CCS_OBJECT_TYPE_PARAMETER : CCS_OBJECT_TYPE_RNG;
	PAR[0].obj.refcount = 7;
	PAR[0].data         = (void *)&CTX;
	V_OOM               = nd_bool();
	ccs_result_t x = ccs_create_variable((ccs_parameter_t)&PAR[0], &e);
	v_check(PAR[0].obj.type == CCS_OBJECT_TYPE_PARAMETER ? x == CCS_RESULT_SUCCESS || (V_OOM && x == CCS_RESULT_ERROR_OUT_OF_MEMORY) : x < 0, "variable: of a parameter");
	v_check(REFS(&PAR[0]) == (x == CCS_RESULT_SUCCESS ? 8 : 7), "variable: holds its parameter");
	if (x == CCS_RESULT_SUCCESS) {
		v_check(REFS(e) == 1 && ((_ccs_expression_variable_data_t *)e->data)->parameter == (ccs_parameter_t)&PAR[0] && e->data->num_nodes == 0 && e->data->type == CCS_EXPRESSION_TYPE_VARIABLE, "variable made");
		e->obj.refcount = 0;
		release_tree(e, CCS_EXPRESSION_TYPE_VARIABLE);
		v_check(REFS(&PAR[0]) == 7, "variable: reference returned");
	}
	v_check(ccs_create_variable(NULL, &e) < 0 && ccs_create_variable((ccs_parameter_t)&PAR[0], NULL) < 0, "bad arguments refused");
	V_REACH("create var");
}
static void
create(ccs_expression_type_t t, size_t n, int arity)
{
	static ccs_datum_t kids[3];
	ccs_expression_t   e = NULL, got[4];
	size_t             cnt = 77;
	for (int k = 0; k < 3; k++) {
		node(k, 0);
		N[k].obj.refcount = 5;
	}
	for (size_t k = 0; k < n; k++)
		kids[k] = ccs_object((ccs_object_t)&N[k]);
	int bad = nd_bool();
	if (n && bad)
		N[n - 1].obj.type = CCS_OBJECT_TYPE_RNG;
	V_OOM = nd_bool();
	ccs_result_t x  = ccs_create_expression(t, n, n ? kids : NULL, &e);
	int          ok = (arity < 0 || n == (size_t)arity) && !(n && bad);
	v_check(ok ? x == CCS_RESULT_SUCCESS || (V_OOM && x == CCS_RESULT_ERROR_OUT_OF_MEMORY) : x < 0, "expression: the operator's number of operands, expressions or values only");
	V_OOM = 0;
	for (size_t k = 0; k < 3; k++)
		v_check(REFS(&N[k]) == (x == CCS_RESULT_SUCCESS && k < n ? 6 : 5), "expression: holds its operands");
	if (x != CCS_RESULT_SUCCESS)
		return;
	v_check(REFS(e) == 1 && e->data->type == t && e->data->num_nodes == n && ccs_expression_get_ops(e) == _ccs_expression_ops_broker(t), "expression made");
	v_check(ccs_expression_get_nodes(e, n, n ? got : NULL, &cnt) == CCS_RESULT_SUCCESS && cnt == n, "number of operands");
	for (size_t k = 0; k < n; k++)
		v_check(got[k] == &N[k], "operands in order");
	v_check(ccs_expression_get_nodes(e, n + 1, got, NULL) == CCS_RESULT_SUCCESS && got[n] == NULL, "larger array: tail cleared");
	v_check(n == 0 || n == 1 || ccs_expression_get_nodes(e, n - 1, got, NULL) < 0, "smaller array refused");
	e->obj.refcount = 0;
	release_tree(e, t);
	for (size_t k = 0; k < 3; k++)
		v_check(REFS(&N[k]) == 5, "expression: references returned");
}
//@unit expr_create cases=18 bcases=17 prop=C11,C12,C14 unwind=6 bounded="up to 3 operands (unary and binary operators: exact)" funcs=ccs_create_expression,ccs_expression_get_nodes,_ccs_expression_del flags="--memory-leak-check"
void
h_expr_create(void)
{
	if (V_CASE < 17) {
		int t     = CCS_EXPRESSION_TYPE_OR + V_CASE;
		int unary = t == CCS_EXPRESSION_TYPE_POSITIVE || t == CCS_EXPRESSION_TYPE_NEGATIVE || t == CCS_EXPRESSION_TYPE_NOT;
		v_check(t <= CCS_EXPRESSION_TYPE_IN, "an operator");
		create((ccs_expression_type_t)t, 1, unary ? 1 : 2);
		create((ccs_expression_type_t)t, 2, unary ? 1 : 2);
	} else {
	create(CCS_EXPRESSION_TYPE_ADD, 3, 2);
	create(CCS_EXPRESSION_TYPE_LIST, 0, -1);
	create(CCS_EXPRESSION_TYPE_LIST, 3, -1);
	ccs_expression_t e = NULL;
	ccs_datum_t      k[2] = {ccs_none, ccs_none};
	v_check(ccs_create_expression(CCS_EXPRESSION_TYPE_LITERAL, 0, NULL, &e) < 0 && ccs_create_expression(CCS_EXPRESSION_TYPE_VARIABLE, 0, NULL, &e) < 0 && ccs_create_expression((ccs_expression_type_t)-1, 2, k, &e) < 0, "not an operator");
	v_check(ccs_create_expression(CCS_EXPRESSION_TYPE_ADD, 2, NULL, &e) < 0 && ccs_create_expression(CCS_EXPRESSION_TYPE_ADD, 2, k, NULL) < 0, "bad arguments refused");
	}
	V_REACH("create");
}
//@unit expr_create_mixed prop=C11,C12 unwind=5 funcs=ccs_create_expression,ccs_create_binary_expression,ccs_create_unary_expression,ccs_create_literal,ccs_create_variable flags="--memory-leak-check"
void
h_expr_create_mixed(void)
{
	ccs_expression_t e = NULL;
	ccs_datum_t      r;
	ccs_int_t        i = nd_i64();
	PAR[0].obj.type     = CCS_OBJECT_TYPE_PARAMETER;
	PAR[0].obj.refcount = 3;
	PAR[0].data         = (void *)&CTX;
	V_OOM        = nd_bool();
	FREE_AT_ZERO = 1;
	ccs_result_t x = ccs_create_binary_expression(CCS_EXPRESSION_TYPE_SUBSTRACT, ccs_int(i), ccs_object((ccs_object_t)&PAR[0]), &e);
	v_check(x == CCS_RESULT_SUCCESS || (V_OOM && x == CCS_RESULT_ERROR_OUT_OF_MEMORY), "binary expression made");
	v_check(REFS(&PAR[0]) == (x == CCS_RESULT_SUCCESS ? 4 : 3), "nothing kept on failure");
	V_OOM        = 0;
	FREE_AT_ZERO = 0;
	if (x == CCS_RESULT_SUCCESS) {
		ccs_expression_t l = e->data->nodes[0], v = e->data->nodes[1];
		v_check(ccs_literal_get_value(l, &r) == CCS_RESULT_SUCCESS && IS(r, INT) && r.value.i == i, "left operand");
		v_check(v->data->type == CCS_EXPRESSION_TYPE_VARIABLE && REFS(v) == 1 && REFS(l) == 1, "right operand");
		e->obj.refcount = 0;
		release_tree(e, CCS_EXPRESSION_TYPE_SUBSTRACT);
		release_tree(l, CCS_EXPRESSION_TYPE_LITERAL);
		release_tree(v, CCS_EXPRESSION_TYPE_VARIABLE);
		v_check(REFS(&PAR[0]) == 3, "references returned");
	}
	V_REACH("create mixed");
}
/* parameters of an expression: each once */
//@unit expr_params prop=C14,C11 unwind=8 bounded="an expression over 3 variables" funcs=ccs_expression_get_parameters,_get_parameters,ccs_expression_check_context flags="--memory-leak-check"
void
h_expr_params(void)
{
	static _ccs_expression_data_t   d;
	static struct _ccs_expression_s e;
	static ccs_expression_t         kids[3];
	ccs_parameter_t                 got[3] = {NULL, NULL, NULL};
	size_t                          n = 77;
	int                             same = nd_bool();
	setup(1, 1);
	node(2, 1);
	ND[2].parameter = (ccs_parameter_t)&PAR[0];
	if (same)
		ND[1].parameter = (ccs_parameter_t)&PAR[0];
	for (int k = 0; k < 3; k++)
		kids[k] = &N[k];
	d.type      = CCS_EXPRESSION_TYPE_LIST;
	d.num_nodes = 3;
	d.nodes     = kids;
	_ccs_object_init(&e.obj, CCS_OBJECT_TYPE_EXPRESSION, (_ccs_object_ops_t *)_ccs_expression_ops_broker(CCS_EXPRESSION_TYPE_LIST));
	e.data    = &d;
	size_t m  = same ? 1 : 2;
	v_check(ccs_expression_get_parameters(&e, 0, NULL, &n) == CCS_RESULT_SUCCESS && n == m, "parameters counted once");
	v_check(ccs_expression_get_parameters(&e, 3, got, NULL) == CCS_RESULT_SUCCESS && got[2] == NULL, "tail cleared");
	v_check(same ? got[0] == (ccs_parameter_t)&PAR[0] && got[1] == NULL : (got[0] == (ccs_parameter_t)&PAR[0] && got[1] == (ccs_parameter_t)&PAR[1]) || (got[1] == (ccs_parameter_t)&PAR[0] && got[0] == (ccs_parameter_t)&PAR[1]), "every parameter once");
	v_check(IFF(ccs_expression_get_parameters(&e, 1, got, NULL) == CCS_RESULT_SUCCESS, same), "smaller array refused");
	IDX    = 0;
	IDXERR = nd_bool();
	v_check(IFF(ccs_expression_check_context(&e, (ccs_context_t)&CTX) == CCS_RESULT_SUCCESS, !IDXERR), "every parameter must be in the context");
	v_check(ccs_expression_check_context(&e, NULL) < 0, "variables need a context");
	v_check(ccs_expression_get_parameters(&e, 0, NULL, NULL) < 0 && ccs_expression_get_parameters(NULL, 0, NULL, &n) < 0, "bad arguments refused");
	V_REACH("params");
}
