/* Contracts shared by the random tuners: the including file names the family
 * (TN), its evaluations (EVN), its data (TDS), and whether it has features. */
#include "vcommon.h"
#include "cconfigspace_internal.h"
#include "configuration_space_internal.h"
#include "objective_space_internal.h"
#include "features_space_internal.h"
#include "tree_space_internal.h"
#include TN_INT
#include EVN_INT
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define TN_T CAT(CAT(ccs_, TN), _t)
#define TN_F(f) CAT(CAT(CAT(ccs_, TN), _), f)
#define TN_CREATE CAT(ccs_create_random_, TN)
#define TN_S CAT(CAT(_ccs_, TN), _s)
#define TN_OPS CAT(CAT(_ccs_, TN), _random_ops)
#define EV_T CAT(CAT(ccs_, EVN), _t)
#define EV_F(f) CAT(CAT(CAT(ccs_, EVN), _), f)
#include "vobj.h"
#include "utarray.h"
#include "valloc_fwd.h"
#define OK(r) ((r) == CCS_RESULT_SUCCESS)
#define MAXO 4 /* optima and evaluations told */
/* evaluations by contract: successful or not; comparable exactly with those of
 * the same objective space, kind of values and features; then by their
 * objective values (the contract of compare is C15's) */
struct ev { _ccs_object_internal_t obj; void *data; ccs_evaluation_result_t result; int space, cls, odd, feat; int8_t o[2]; struct cf *conf; };
struct cf { _ccs_object_internal_t obj; void *data; int id; };
static struct ev E[MAXO + 3];
static struct cf CF[MAXO + 3], FT[2], SP[3], RG, OT;
#define EVP(k) ((EV_T)(E + (k)))
ccs_result_t
EV_F(get_result)(EV_T e, ccs_evaluation_result_t *r)
{
	struct ev *x = (struct ev *)e;
	if (!x || x->obj.type != EVTYPE)
		return CCS_RESULT_ERROR_INVALID_OBJECT;
	*r = x->result;
	return CCS_RESULT_SUCCESS;
}
ccs_result_t
EV_F(get_configuration)(EV_T e, CFG_T *r)
{
	*r = (CFG_T)((struct ev *)e)->conf;
	return CCS_RESULT_SUCCESS;
}
static int
spec_cmp(struct ev *a, struct ev *b)
{
	if (a == b)
		return CCS_COMPARISON_EQUIVALENT;
	if (a->feat != b->feat || a->cls != b->cls || a->odd || b->odd)
		return CCS_COMPARISON_NOT_COMPARABLE;
	int lt = a->o[0] < b->o[0] || a->o[1] < b->o[1], gt = a->o[0] > b->o[0] || a->o[1] > b->o[1];
	return lt && gt ? CCS_COMPARISON_NOT_COMPARABLE : lt ? CCS_COMPARISON_BETTER : gt ? CCS_COMPARISON_WORSE : CCS_COMPARISON_EQUIVALENT;
}
/* how the evaluation told compares with the optima, where the case fixes it */
static const int *FIXED;
ccs_result_t
EV_F(compare)(EV_T a, EV_T b, ccs_comparison_t *r)
{
	struct ev *x = (struct ev *)a, *y = (struct ev *)b;
	if (x != y && (x->result || y->result || x->space != y->space))
		return CCS_RESULT_ERROR_INVALID_OBJECT;
	int c = spec_cmp(x, y);
	if (FIXED && x == E + MAXO + 1 && y < E + MAXO) {
		v_assume(c == FIXED[y - E]);
		c = FIXED[y - E];
	}
	if (FIXED && y == E + MAXO + 1 && x < E + MAXO) {
		v_assume(c == -FIXED[x - E] || FIXED[x - E] == CCS_COMPARISON_NOT_COMPARABLE && c == FIXED[x - E]);
		c = FIXED[x - E] == CCS_COMPARISON_NOT_COMPARABLE ? FIXED[x - E] : -FIXED[x - E];
	}
	*r = (ccs_comparison_t)c;
	return CCS_RESULT_SUCCESS;
}
#if FEAT
ccs_result_t
ccs_features_evaluation_get_features(ccs_features_evaluation_t e, ccs_features_t *f)
{
	*f = (ccs_features_t)&FT[((struct ev *)e)->feat];
	return CCS_RESULT_SUCCESS;
}
ccs_result_t
ccs_features_cmp(ccs_features_t a, ccs_features_t b, int *r)
{
	*r = ((struct cf *)a)->id - ((struct cf *)b)->id;
	return CCS_RESULT_SUCCESS;
}
static int FVALID;
ccs_result_t
ccs_features_space_check_features(ccs_features_space_t s, ccs_features_t f, ccs_bool_t *r)
{
	v_check((struct cf *)s == &SP[2], "space of the tuner");
	*r = FVALID ? CCS_TRUE : CCS_FALSE;
	return CCS_RESULT_SUCCESS;
}
#endif
/* sampling and random numbers by contract */
static int      NSAMP, SAMPFAIL;
static uint64_t RND;
ccs_result_t
SAMPLES(SPACE_T s, size_t n, CFG_T *c)
{
	v_check((struct cf *)s == &SP[0], "space of the tuner");
	if (SAMPFAIL)
		return CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL;
	for (size_t i = 0; i < n; i++)
		c[i] = (CFG_T)&OT, OT.obj.refcount++;
	NSAMP += (int)n;
	return CCS_RESULT_SUCCESS;
}
ccs_result_t
GET_RNG(SPACE_T s, ccs_rng_t *r)
{
	v_check((struct cf *)s == &SP[0], "space of the tuner");
	*r = (ccs_rng_t)&RG;
	return CCS_RESULT_SUCCESS;
}
ccs_result_t
ccs_rng_get(ccs_rng_t r, unsigned long int *x)
{
	v_check((struct cf *)r == &RG, "generator of the space");
	*x = (unsigned long)RND;
	return CCS_RESULT_SUCCESS;
}
#include TNR_FILE
#include TN_FILE
#pragma pack(push, 1)
struct blk_tuner { struct TN_S t; struct TDS d; char name[3]; };
struct blk_evs { EV_T e[8]; };
#pragma pack(pop)
#define V_BLK1 struct blk_tuner
#define V_BLK2 UT_array
#define V_BLK3 struct blk_evs
#include "valloc.h"
/* a tuner that has been told things: n optima (the first n evaluations), m
 * evaluations of history (those, and the evaluation MAXO before them) */
static struct TN_S  T;
static struct TDS   D;
static UT_array     AH, AO, AQ;
static EV_T         BH[8], BO[8], BQ[8];
static void
arr(UT_array *a, EV_T *b, unsigned n)
{
	a->icd = _evaluation_icd, a->i = n, a->n = 8, a->d = (char *)b;
}
static void
shell(struct cf *c, ccs_object_type_t t)
{
	c->obj.type = t, c->obj.refcount = 1, c->data = &NSAMP;
}
/* h: the history also has an evaluation that is not an optimum */
static void
mk(unsigned n, int h)
{
	shell(&SP[0], SPACE_TYPE), shell(&SP[1], CCS_OBJECT_TYPE_OBJECTIVE_SPACE), shell(&SP[2], CCS_OBJECT_TYPE_FEATURES_SPACE), shell(&RG, CCS_OBJECT_TYPE_RNG), shell(&OT, CFG_TYPE), shell(&FT[0], CCS_OBJECT_TYPE_FEATURES), shell(&FT[1], CCS_OBJECT_TYPE_FEATURES);
	FT[1].id = 1;
	for (int k = 0; k < MAXO + 3; k++) {
		E[k].obj.type = EVTYPE, E[k].obj.refcount = 1, E[k].data = &NSAMP;
		E[k].feat = FEAT && nd_bool(), E[k].cls = nd_bool(), E[k].odd = nd_bool();
		E[k].o[0] = (int8_t)nd_u64(), E[k].o[1] = (int8_t)nd_u64();
		E[k].conf = &CF[k];
		shell(&CF[k], CFG_TYPE);
	}
	_ccs_object_init(&T.obj, TNTYPE, (_ccs_object_ops_t *)&TN_OPS);
	T.data              = (void *)&D;
	D.common_data.type  = TNR_TYPE;
	D.common_data.name  = "t";
	D.common_data.SPACE = (SPACE_T)&SP[0], D.common_data.objective_space = (ccs_objective_space_t)&SP[1];
#if FEAT
	D.common_data.features_space = (ccs_features_space_t)&SP[2];
#endif
	D.history = &AH, D.optima = &AO, D.old_optima = &AQ;
	if (h)
		BH[0] = EVP(MAXO);
	for (unsigned k = 0; k < n; k++)
		BH[k + h] = EVP(k), BO[k] = EVP(k);
	arr(&AH, BH, n + h), arr(&AO, BO, n), arr(&AQ, BQ, 0);
	/* what holds between calls: no optimum dominates or equals another, every
	 * evaluation of the history is dominated or equalled by an optimum */
	for (unsigned i = 0; i < n; i++)
		for (unsigned j = 0; j < i; j++)
			v_assume(spec_cmp(E + i, E + j) == CCS_COMPARISON_NOT_COMPARABLE);
	if (h) {
		int covered = 0;
		for (unsigned i = 0; i < n; i++)
			covered |= spec_cmp(E + i, E + MAXO) == CCS_COMPARISON_BETTER || spec_cmp(E + i, E + MAXO) == CCS_COMPARISON_EQUIVALENT;
		v_assume(covered);
	}
}
static int
occurs(UT_array *a, struct ev *e)
{
	int n = 0;
	for (unsigned k = 0; k < 8; k++)
		if (k < a->i)
			n += ((EV_T *)a->d)[k] == (EV_T)e;
	return n;
}
/* One evaluation reported to a tuner with n optima.  Each case fixes how the
 * evaluation compares with every optimum (each way that is possible when no
 * optimum dominates or equals another); k: 0 a successful evaluation, 1 of
 * another objective space, 2 a failed one, 3 not an evaluation */
#define B CCS_COMPARISON_BETTER
#define W CCS_COMPARISON_WORSE
#define Q CCS_COMPARISON_EQUIVALENT
#define NC CCS_COMPARISON_NOT_COMPARABLE
static const struct { int n, k, c[3]; } TC[26] = {
	{0, 0, {0}}, {1, 0, {B}}, {1, 0, {W}}, {1, 0, {Q}}, {1, 0, {NC}}, {1, 1, {NC}}, {1, 2, {NC}}, {1, 3, {NC}}, {0, 2, {0}}, {0, 3, {0}},
	{3, 0, {B, B, B}}, {3, 0, {B, B, NC}}, {3, 0, {B, NC, B}}, {3, 0, {NC, B, B}}, {3, 0, {B, NC, NC}}, {3, 0, {NC, B, NC}}, {3, 0, {NC, NC, B}}, {3, 0, {NC, NC, NC}},
	{3, 0, {W, NC, NC}}, {3, 0, {NC, W, NC}}, {3, 0, {NC, NC, W}}, {3, 0, {Q, NC, NC}}, {3, 0, {NC, Q, NC}}, {3, 0, {NC, NC, Q}}, {3, 1, {NC, NC, NC}}, {3, 2, {NC, NC, NC}}};
static void
t_tell(void)
{
	const unsigned n  = (unsigned)TC[V_CASE].n;
	const int      k0 = TC[V_CASE].k;
	struct ev *e  = E + MAXO + 1;
	EV_T       a[1] = {(EV_T)e};
	FIXED = TC[V_CASE].c;
	mk(n, n > 0);
	for (unsigned k = 0; k < n; k++)
		v_assume(spec_cmp(e, E + k) == FIXED[k]);
	e->space  = k0 == 1;
	e->result = k0 == 2 ? CCS_RESULT_ERROR_INVALID_VALUE : CCS_RESULT_SUCCESS;
	if (k0 == 3)
		e->obj.type = CCS_OBJECT_TYPE_RNG;
	int          bad = k0 == 3;
	ccs_result_t r   = TN_F(tell)((TN_T)&T, 1, a);
	v_check(OK(r) == !bad, "what is not an evaluation is refused");
	unsigned h0 = n + (n > 0), told = !bad && !e->result;
	v_check(D.optima != D.old_optima && D.history != D.optima && D.history != D.old_optima, "history and optima are distinct");
	v_check(utarray_len(D.history) == h0 + told && e->obj.refcount == 1 + (int)told, "the history grows by the successful evaluation, which is kept");
	for (unsigned k = 0; k < h0; k++)
		v_check(BH[k] == (k == 0 ? EVP(MAXO) : EVP(k - 1)), "the history keeps its order");
	v_check(!told || ((EV_T *)D.history->d)[h0] == (EV_T)e, "the history ends with what was told last");
	int dom = 0; /* an optimum dominates or equals it, or it cannot be compared with them */
	for (unsigned k = 0; k < n; k++)
		dom |= spec_cmp(E + k, e) == CCS_COMPARISON_BETTER || spec_cmp(E + k, e) == CCS_COMPARISON_EQUIVALENT || e->space;
	unsigned expected = 0;
	for (unsigned k = 0; k < n; k++) {
		int keep = !told || e->space || spec_cmp(e, E + k) != CCS_COMPARISON_BETTER;
		v_check(occurs(D.optima, E + k) == keep, "an optimum stays one unless the new evaluation dominates it");
		expected += (unsigned)keep;
		v_check(E[k].obj.refcount == 1, "optima are held by the history");
	}
	v_check(occurs(D.optima, e) == (told && !dom), "a successful evaluation becomes an optimum unless dominated or equalled");
	expected += told && !dom;
	v_check(utarray_len(D.optima) == expected, "nothing else is an optimum");
	/* what held before holds again */
	for (unsigned i = 0; i < 8; i++)
		for (unsigned j = 0; j < i; j++)
			if (i < D.optima->i)
				v_check(spec_cmp((struct ev *)((EV_T *)D.optima->d)[i], (struct ev *)((EV_T *)D.optima->d)[j]) == CCS_COMPARISON_NOT_COMPARABLE, "no optimum dominates or equals another");
	int cov = n == 0, cove = 0;
	for (unsigned i = 0; i < 8; i++)
		if (i < D.optima->i) {
			struct ev *x = (struct ev *)((EV_T *)D.optima->d)[i];
			int        c = spec_cmp(x, E + MAXO), d = spec_cmp(x, e);
			cov |= c == CCS_COMPARISON_BETTER || c == CCS_COMPARISON_EQUIVALENT;
			cove |= d == CCS_COMPARISON_BETTER || d == CCS_COMPARISON_EQUIVALENT;
		}
	v_check(cov && (!told || e->space || cove), "every evaluation of the history is dominated or equalled by an optimum");
}
/* two evaluations reported at once to a tuner with one optimum: the pairs of
 * objective values of the three, the result of the two */
static const struct { int8_t v[3][2]; int re, rf; } T2[10] = {
	{{{1, 1}, {0, 0}, {2, 2}}, 0, 0}, {{{1, 1}, {2, 2}, {0, 0}}, 0, 0}, {{{1, 1}, {0, 0}, {0, 0}}, 0, 0}, {{{1, 1}, {0, 2}, {2, 0}}, 0, 0}, {{{1, 1}, {0, 2}, {0, 1}}, 0, 0},
	{{{1, 1}, {1, 1}, {0, 2}}, 0, 0}, {{{1, 1}, {0, 2}, {0, 0}}, 0, 0}, {{{1, 1}, {0, 0}, {0, 2}}, 1, 0}, {{{1, 1}, {0, 0}, {0, 2}}, 0, 1}, {{{1, 1}, {0, 0}, {0, 2}}, 1, 1}};
static void
t_tell2(void)
{
	struct ev *e = E + MAXO + 1, *f = E + MAXO + 2;
	EV_T       a[2] = {(EV_T)e, (EV_T)f};
	const int  N1 = 1;
	mk(1, 0);
	e->result = T2[V_CASE].re ? CCS_RESULT_ERROR_INVALID_VALUE : CCS_RESULT_SUCCESS;
	f->result = T2[V_CASE].rf ? CCS_RESULT_ERROR_INVALID_VALUE : CCS_RESULT_SUCCESS;
	E[0].odd = e->odd = f->odd = 0, E[0].cls = e->cls = f->cls = 0, E[0].feat = e->feat = f->feat = 0;
	for (int k = 0; k < 2; k++)
		E[0].o[k] = T2[V_CASE].v[0][k], e->o[k] = T2[V_CASE].v[1][k], f->o[k] = T2[V_CASE].v[2][k];
	v_check(OK(TN_F(tell)((TN_T)&T, 2, a)), "evaluations accepted");
	unsigned m = N1 + !e->result + !f->result;
	v_check(utarray_len(D.history) == m, "the history holds every successful evaluation");
	if (!f->result)
		v_check(((EV_T *)D.history->d)[m - 1] == (EV_T)f, "in the order told");
	if (!e->result)
		v_check(((EV_T *)D.history->d)[N1] == (EV_T)e, "in the order told");
	struct ev *all[4] = {E, E + 1, e, f};
	int        in[4]  = {1, 0, !e->result, !f->result};
	unsigned   c      = 0;
	for (int i = 0; i < 4; i++) {
		int max = in[i];
		for (int j = 0; j < 4; j++)
			if (j != i && in[j]) {
				int x = spec_cmp(all[j], all[i]);
				max &= x != CCS_COMPARISON_BETTER && (x != CCS_COMPARISON_EQUIVALENT || j > i);
			}
		v_check(occurs(D.optima, all[i]) == max, "the optima are the evaluations that no other dominates, the first of equal ones");
		c += (unsigned)max;
	}
	v_check(utarray_len(D.optima) == c, "nothing else is an optimum");
}
#if FEAT
#define FARG(f) , (ccs_features_t)(f)
#else
#define FARG(f)
#endif
/* get_optima, get_history: V_CASE 0 optima, 1 history; features of none or one */
static void
t_lists(void)
{
	EV_T            out[6];
	size_t          n = nd_upto(6), cnt = 99;
	int             hasret = nd_bool(), hasout = nd_bool();
	const unsigned  no = 3;
	mk(no, 1);
	struct cf      *ft  = FEAT && nd_bool() ? &FT[nd_bool()] : NULL;
	unsigned        exp = 0;
	struct ev      *l[4];
	for (unsigned k = 0; k < (V_CASE ? 4u : 3u); k++) {
		struct ev *x = V_CASE ? (k ? E + k - 1 : E + MAXO) : E + k;
		if (!ft || x->feat == ft->id)
			l[exp++] = x;
	}
	for (int k = 0; k < 6; k++)
		out[k] = (EV_T)&SP[0];
	ccs_result_t r = V_CASE ? TN_F(get_history)((TN_T)&T FARG(ft), n, hasout ? out : NULL, hasret ? &cnt : NULL) : TN_F(get_optima)((TN_T)&T FARG(ft), n, hasout ? out : NULL, hasret ? &cnt : NULL);
	v_check(OK(r) == !((!hasout && n) || (!hasout && !hasret) || (hasout && n < exp)), "the array protocol");
	v_check(!OK(r) || !hasret || cnt == exp, "the count is that of the whole");
	for (unsigned k = 0; k < 6; k++)
		v_check(out[k] == (OK(r) && hasout && k < n ? (k < exp ? (EV_T)l[k] : NULL) : (EV_T)&SP[0]) || (!OK(r) && hasout && k < n), "the elements in order, then nothing, and nothing past the array");
	v_check(utarray_len(D.optima) == no && utarray_len(D.history) == no + 1, "nothing changes");
}
/* suggest and ask */
static void
t_suggest(void)
{
	CFG_T    c = NULL;
	unsigned n = V_CASE;
	mk(n, 0);
	RND          = nd_u64();
	SAMPFAIL     = nd_bool();
	unsigned cnt = 0;
	int      hit = 0;
#if FEAT
	FVALID = nd_bool();
#endif
	int f = FEAT && nd_bool();
	for (unsigned k = 0; k < n; k++)
		cnt += !FEAT || E[k].feat == f;
	ccs_result_t r = TN_F(suggest)((TN_T)&T FARG(&FT[f]), &c);
#if FEAT
	v_check(FVALID || !OK(r), "features the space does not accept are refused");
	v_assume(FVALID);
#endif
	v_check(OK(r) == (cnt > 0 || !SAMPFAIL), "a suggestion is made");
	for (unsigned k = 0; k < n; k++) {
		int it = c == (CFG_T)&CF[k];
		hit += it;
		v_check(CF[k].obj.refcount == 1 + it, "the configuration suggested is retained for the caller");
		v_check(!it || !FEAT || E[k].feat == f, "suggestions are for the features asked");
	}
	if (cnt)
		v_check(hit == 1 && NSAMP == 0, "suggestions come from the optima");
	else if (OK(r))
		v_check(c == (CFG_T)&OT && NSAMP == 1, "without optima one is sampled");
	v_check(utarray_len(D.optima) == n && utarray_len(D.history) == n, "nothing changes");
	/* ask */
	CFG_T  out[3] = {NULL, NULL, NULL};
	size_t na = nd_upto(2), ret = 99;
	int    hasout = nd_bool(), hasret = nd_bool();
	NSAMP = 0;
	r     = TN_F(ask)((TN_T)&T FARG(&FT[f]), na, hasout ? out : NULL, hasret ? &ret : NULL);
	if (!hasout)
		v_check(OK(r) == (na == 0 && hasret) && (!OK(r) || ret == 1), "how many can be asked for");
	else
		v_check(OK(r) == !SAMPFAIL && (!OK(r) || (NSAMP == (int)na && (!hasret || ret == na))), "as many configurations as asked for");
	v_check(out[2] == NULL, "nothing past the array");
}
/* out of memory while the optima are rebuilt: V_CASE 0 and 1 those of
 * the optima, 2 that of the history */
static void
t_tell_oom(void)
{
	struct ev *e = E + MAXO + 1;
	EV_T       a[1] = {(EV_T)e};
	mk(2, 0);
	for (int k = 0; k < 2; k++)
		E[k].odd = e[k].odd = 1;
	AQ.n = 0, AQ.d = NULL;
	if (V_CASE)
		AH.n = 2, AH.d = (char *)malloc(16), ((EV_T *)AH.d)[0] = EVP(0), ((EV_T *)AH.d)[1] = EVP(1);
	V_OOMAT = V_CASE == 0 ? 1 : V_CASE == 1 ? 3 : 2;
	ccs_result_t r = TN_F(tell)((TN_T)&T, 1, a);
	v_check(D.optima != D.old_optima, "history and optima are distinct");
	if (!OK(r)) {
		v_check(utarray_len(D.optima) == 2 && ((EV_T *)D.optima->d)[0] == EVP(0) && ((EV_T *)D.optima->d)[1] == EVP(1), "the optima are as they were");
		v_check(e->obj.refcount == 1 + occurs(D.history, e), "what the history holds is kept, what it does not hold is not");
		EV_T b[1] = {(EV_T)(e + 1)};
		V_OOMAT = 0;
		v_check(OK(TN_F(tell)((TN_T)&T, 1, b)) && occurs(D.history, e + 1) == 1 && e[1].obj.refcount == 2, "the next evaluation is kept");
	}
	free(D.optima->d == (char *)BO || D.optima->d == (char *)BQ ? NULL : D.optima->d);
	free(D.old_optima->d == (char *)BO || D.old_optima->d == (char *)BQ ? NULL : D.old_optima->d);
	free(D.history->d == (char *)BH ? NULL : D.history->d);
}
/* creation, with allocation failures, and destruction */
static void
t_create(void)
{
	TN_T  t = NULL;
	char  name[3] = "ab";
	void *args[3];
	mk(1, 0);
	int bad = V_CASE < 4 ? V_CASE : 0;
	V_OOMAT = V_CASE >= 4 ? V_CASE - 3 : 0;
	args[0] = bad == 1 ? (void *)&SP[1] : (void *)&SP[0], args[1] = bad == 2 ? (void *)&SP[0] : (void *)&SP[1], args[2] = &SP[2];
	ccs_result_t r = TN_CREATE(bad == 3 ? NULL : name, (SPACE_T)args[0] FSP((ccs_features_space_t)args[2]), (ccs_objective_space_t)args[1], &t);
	v_check(OK(r) == (!bad && !V_HIT), "a tuner is made of a name and its spaces unless memory runs out");
	if (!OK(r)) {
		v_check(SP[0].obj.refcount == 1 && SP[1].obj.refcount == 1 && SP[2].obj.refcount == 1 && t == NULL, "a refused creation leaves nothing behind");
		return;
	}
	v_check(SP[0].obj.refcount == 2 && SP[1].obj.refcount == 2 && SP[2].obj.refcount == 1 + FEAT, "a tuner holds its spaces");
	const char           *nm = NULL;
	SPACE_T               s;
	ccs_objective_space_t os;
	TYPE_T                tt;
	v_check(OK(TN_F(get_name)(t, &nm)) && nm != name && nm[0] == name[0] && (!nm[0] || nm[1] == name[1] && (!nm[1] || nm[2] == 0)), "the name is copied");
	v_check(OK(GET_SPACE(t, &s)) && s == (SPACE_T)&SP[0] && OK(TN_F(get_objective_space)(t, &os)) && os == (ccs_objective_space_t)&SP[1] && OK(TN_F(get_type)(t, &tt)) && tt == TNR_TYPE, "what it was made of");
	v_check(!OK(TN_F(get_name)((TN_T)&SP[0], &nm)) && !OK(TN_F(get_name)(t, NULL)) && !OK(GET_SPACE(t, NULL)) && !OK(TN_F(get_objective_space)(t, NULL)) && !OK(TN_F(get_type)(t, NULL)), "bad arguments refused");
	size_t cnt = 7;
	v_check(OK(TN_F(get_optima)(t FARG(NULL), 0, NULL, &cnt)) && cnt == 0 && OK(TN_F(get_history)(t FARG(NULL), 0, NULL, &cnt)) && cnt == 0, "a new tuner was told nothing");
	EV_T a[1] = {EVP(0)};
	E[0].obj.refcount = 1;
	v_check(OK(TN_F(tell)(t, 1, a)) && E[0].obj.refcount == 2, "an evaluation is kept");
	t->obj.ops->del((ccs_object_t)t);
	free(t);
	v_check(SP[0].obj.refcount == 1 && SP[1].obj.refcount == 1 && SP[2].obj.refcount == 1 && E[0].obj.refcount == 1, "a destroyed tuner holds nothing");
}
