/* Contracts for what src/configuration_space.c says of configurations: checking,
 * default configuration, sampling, forbidden clauses. */
//@property C17
//@assume parameters, distributions, expressions and random generators by contract (units of C06 to C11): an expression is a function of the values of its parameters, a parameter accepts some values, its default and sampled ones among them; uthash by the contract of include/vhash.h; qsort sorts
#include "cspace_pre.inc"
#include "cspace.inc"
#define R_FALSE 0
#define R_TRUE 1
#define R_INACTIVE 2
#define R_ONE 3 /* a number, not true */
#define R_ERROR 4
static struct _ccs_configuration_space_s      S, S2;
static struct _ccs_configuration_space_data_s D;
static UT_array                    AP, AS, AF, APA[3], ACH[3];
static _ccs_parameter_wrapper_cs_t BP[8];
static size_t                      BS[8], BPA[3][8], BCH[3][8];
static ccs_expression_t            BF[8];
static struct blk_dw3              DW[3];
static _ccs_parameter_index_hash_t HX[3];
static struct vx                   F[2];
static size_t                      N3;
static int                         ROUND; /* samplings so far */
static uint8_t                     FT[2][3]; /* what a clause says in each round */
/* spaces: n parameters; of each, the parameters its condition depends on (a bit
 * mask, 8: a condition without parameters, 0: no condition); an order in which
 * they may be evaluated; the components; clauses; graph_ok */
static const struct { size_t n; int dep[3]; size_t ord[3]; int comp[3][4]; unsigned nf; int graph_ok; } G[] = {
	{1, {0}, {0}, {{1, 0}}, 1, 1},
	{3, {0, 0, 0}, {0, 1, 2}, {{3, 2, 0, 1}}, 2, 1},
	{3, {2, 4, 0}, {2, 1, 0}, {{1, 0}, {2, 2, 1}}, 1, 1},
	{3, {0, 1, 3}, {0, 1, 2}, {{1, 0}, {1, 2}, {1, 1}}, 1, 1},
	{3, {0, 1, 1}, {0, 2, 1}, {{2, 1, 0}, {1, 2}}, 0, 1},
	{3, {6, 8, 0}, {1, 2, 0}, {{2, 0, 2}, {1, 1}}, 2, 1},
	{3, {2, 4, 0}, {0, 1, 2}, {{1, 0}, {1, 1}, {1, 2}}, 1, 0},
	{3, {0, 5, 1}, {1, 2, 0}, {{3, 0, 1, 2}}, 0, 0}};
static void
st(UT_array *a, UT_icd icd, void *d, unsigned n)
{
	a->icd = icd, a->d = (char *)d, a->i = n, a->n = 8;
}
static uint8_t
nd_kind(void)
{
	uint8_t k = (uint8_t)nd_u64();
	v_assume(k <= R_ERROR);
	return k;
}
static void
mk(int g)
{
	base();
	N3 = G[g].n;
	_ccs_object_init(&S.obj, CCS_OBJECT_TYPE_CONFIGURATION_SPACE, (_ccs_object_ops_t *)&_configuration_space_ops);
	S2     = S;
	S.data = &D, S2.data = &D;
	D.name = "cs", D.parameters = &AP, D.sorted_indexes = &AS, D.forbidden_clauses = &AF, D.graph_ok = G[g].graph_ok ? CCS_TRUE : CCS_FALSE, D.rng = (ccs_rng_t)&RG;
	RG.obj.refcount = 1;
	st(&AP, _parameter_wrapper_icd, BP, (unsigned)N3);
	st(&AS, _size_t_icd, BS, (unsigned)N3);
	st(&AF, _forbidden_clauses_icd, BF, G[g].nf);
	for (size_t k = 0; k < N3; k++) {
		BS[k] = G[g].ord[k];
		st(&APA[k], _size_t_icd, BPA[k], 0);
		st(&ACH[k], _size_t_icd, BCH[k], 0);
		BP[k].parameter = (ccs_parameter_t)&P[k];
		BP[k].parents = &APA[k], BP[k].children = &ACH[k];
		BP[k].condition = G[g].dep[k] ? (ccs_expression_t)&X[k] : NULL;
		X[k].n = 0;
		for (int j = 0; j < 3; j++)
			if (G[g].dep[k] >> j & 1)
				X[k].p[X[k].n++] = j;
		for (int m = 0; m < 8; m++)
			X[k].tab[m] = nd_kind();
		HX[k].parameter = (ccs_parameter_t)&P[k], HX[k].name = P[k].name, HX[k].index = k;
		HX[k].hh_handle.key = &HX[k].parameter, HX[k].hh_handle.keylen = sizeof(ccs_parameter_t), HX[k].hh_handle.next = k + 1 < N3 ? &HX[k + 1] : NULL;
		P[k].def.type = CCS_DATA_TYPE_INT, P[k].def.value.i = nd_i64(), P[k].def.flags = 0;
		v_assume(P[k].def.value.i >= 0);
	}
	D.handle_hash = &HX[0];
	for (unsigned k = 0; k < 2; k++) {
		F[k] = X[3];
		BF[k] = (ccs_expression_t)&F[k];
		for (int r = 0; r < 3; r++)
			FT[k][r] = nd_kind();
	}
	for (int c = 0; c < 3; c++)
		if (G[g].comp[c][0]) {
			DW[c].w.distribution = (ccs_distribution_t)&DG[c];
			DW[c].w.dimension = DG[c].dim = (size_t)G[g].comp[c][0];
			DW[c].w.parameter_indexes = DW[c].i;
			for (int j = 0; j < G[g].comp[c][0]; j++) {
				DW[c].i[j] = (size_t)G[g].comp[c][1 + j];
				BP[DW[c].i[j]].distribution = &DW[c].w, BP[DW[c].i[j]].distribution_index = (size_t)j;
			}
			DL_APPEND(D.distribution_list, &DW[c].w);
		}
}
/* expressions: the result is a function of the values of the parameters */
static unsigned
actives(struct vx *x, const ccs_datum_t *v)
{
	unsigned m = 0;
	for (size_t k = 0; k < x->n; k++)
		m |= (v[x->p[k]].type != CCS_DATA_TYPE_INACTIVE) << x->p[k];
	return m;
}
static const int *TRIES; /* what the clause says of each try, where a case fixes it */
static int
kind(struct vx *x, const ccs_datum_t *v)
{
	if (TRIES && (x == &F[0] || x == &F[1])) {
		v_check(ROUND >= 1 && ROUND <= 4, "no more tries than needed");
		return TRIES[ROUND - 1] == 2 ? R_ERROR : TRIES[ROUND - 1] ? R_FALSE : R_TRUE;
	}
	if (x == &F[0] || x == &F[1])
		return FT[x == &F[1]][ROUND < 3 ? ROUND : 2];
	return x->tab[actives(x, v)];
}
ccs_result_t
ccs_expression_eval(ccs_expression_t e, ccs_context_t c, ccs_datum_t *v, ccs_datum_t *r)
{
	v_check(c == (ccs_context_t)&S && v != NULL, "evaluated over the values");
	int k = kind((struct vx *)e, v);
	*r    = k == R_TRUE ? ccs_true : k == R_FALSE ? ccs_false : k == R_INACTIVE ? ccs_inactive : ccs_int(1);
	if (TRIES && (struct vx *)e != &F[0] && (struct vx *)e != &F[1])
		return CCS_RESULT_SUCCESS; /* conditions do not fail there */
	return k == R_ERROR ? CCS_RESULT_ERROR_INVALID_VALUE : CCS_RESULT_SUCCESS;
}
ccs_result_t
ccs_expression_get_parameters(ccs_expression_t e, size_t n, ccs_parameter_t *p, size_t *ret)
{
	struct vx *x = (struct vx *)e;
	if (p)
		for (size_t k = 0; k < x->n; k++)
			p[k] = (ccs_parameter_t)&P[x->p[k]];
	if (ret)
		*ret = x->n;
	return CCS_RESULT_SUCCESS;
}
static int CTXBAD;
ccs_result_t
ccs_expression_check_context(ccs_expression_t e, ccs_context_t c)
{
	return CTXBAD ? CCS_RESULT_ERROR_INVALID_PARAMETER : CCS_RESULT_SUCCESS;
}
/* parameters: accept the integers that are not negative */
static int PFAIL; /* which one cannot tell */
static int accepts(ccs_datum_t v) { return v.type == CCS_DATA_TYPE_INT && v.value.i >= 0; }
ccs_result_t
ccs_parameter_check_value(ccs_parameter_t p, ccs_datum_t v, ccs_bool_t *r)
{
	if ((struct vp *)p - P == PFAIL - 1)
		return CCS_RESULT_ERROR_INVALID_OBJECT;
	*r = accepts(v) ? CCS_TRUE : CCS_FALSE;
	return CCS_RESULT_SUCCESS;
}
ccs_result_t
ccs_parameter_get_default_value(ccs_parameter_t p, ccs_datum_t *v)
{
	if ((struct vp *)p - P == PFAIL - 1)
		return CCS_RESULT_ERROR_INVALID_OBJECT;
	*v = ((struct vp *)p)->def;
	return CCS_RESULT_SUCCESS;
}
/* configurations and sampling */
static struct { struct _ccs_configuration_s c; _ccs_configuration_data_t d; ccs_datum_t v[3]; } CF[3];
static int                       NCF, CFFAIL = -1, DFAIL;
static ccs_datum_t               SV[3]; /* sampled last */
ccs_result_t
ccs_create_configuration(ccs_configuration_space_t s, size_t n, ccs_datum_t *v, ccs_configuration_t *r)
{
	v_check(s == &S && n == 0 && v == NULL, "an empty configuration of the space");
	if (NCF == CFFAIL)
		return CCS_RESULT_ERROR_OUT_OF_MEMORY;
	v_check(NCF < 3, "no more configurations than needed");
	_ccs_object_init(&CF[NCF].c.obj, CCS_OBJECT_TYPE_CONFIGURATION, NULL);
	CF[NCF].c.data = &CF[NCF].d;
	CF[NCF].d.configuration_space = s, CF[NCF].d.num_values = N3, CF[NCF].d.values = CF[NCF].v;
	for (int k = 0; k < 3; k++)
		CF[NCF].v[k] = ccs_none;
	*r = &CF[NCF++].c;
	return CCS_RESULT_SUCCESS;
}
static unsigned DRAWN;
ccs_result_t
ccs_distribution_parameters_sample(ccs_distribution_t d, ccs_rng_t rng, ccs_parameter_t *p, ccs_datum_t *v)
{
	struct vd *x = (struct vd *)d;
	int        c = (int)(x - DG);
	v_check(rng == (ccs_rng_t)&RG, "generator of the space");
	if (DFAIL == c + 1)
		return CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL;
	v_check(!(DRAWN >> c & 1), "each component is sampled once");
	DRAWN |= 1u << c;
	int all = 0;
	for (int k = 0; k < 3; k++)
		all |= (D.distribution_list && DW[k].w.distribution) << k;
	if (DRAWN == (unsigned)all)
		DRAWN = 0, ROUND++;
	for (size_t j = 0; j < x->dim; j++) {
		size_t i = DW[c].i[j];
		v_check(p[j] == (ccs_parameter_t)&P[i], "the parameters of the component, in its order");
		ccs_datum_t t = ccs_int((ccs_int_t)(nd_u64() >> 1));
		v[j] = t, SV[i] = t;
	}
	return CCS_RESULT_SUCCESS;
}
/* what the property says of the values of a configuration: every parameter
 * active exactly when its condition is true, active values accepted, no clause
 * true; sure: no evaluation fails */
static int
spec(const ccs_datum_t *v, int *bad, int *sure)
{
	*bad = 0, *sure = 1;
	for (size_t k = 0; k < N3; k++) {
		int r = BP[k].condition ? kind(&X[k], v) : R_TRUE;
		if (r == R_ERROR) {
			*sure = 0;
			continue;
		}
		*bad |= (r == R_TRUE) != (v[k].type != CCS_DATA_TYPE_INACTIVE);
		if (r == R_TRUE && (int)k != PFAIL - 1)
			*bad |= !accepts(v[k]);
		if (r == R_TRUE && (int)k == PFAIL - 1)
			*sure = 0;
	}
	for (unsigned k = 0; k < AF.i; k++) {
		int r = kind(&F[k], v);
		*bad |= r == R_TRUE;
		*sure &= r != R_ERROR;
	}
	return !*bad;
}
static ccs_datum_t
nd_value(void)
{
	uint64_t    k = nd_u64() & 3;
	ccs_datum_t d = k == 0 ? ccs_inactive : k == 1 ? ccs_none : k == 2 ? ccs_true : ccs_int(nd_i64());
	return d;
}
/* V_CASE: the space, and which parameter cannot tell (values and evaluations are
 * arbitrary) */
//@unit cs_check cases=32 prop=C17 unwind=10 bounded="8 spaces of up to 3 parameters with up to 3 conditions and 2 clauses" funcs=ccs_configuration_space_check_configuration,ccs_configuration_space_check_configuration_values,_check_configuration,_test_forbidden
void
h_cs_check(void)
{
	ccs_datum_t v[3];
	ccs_bool_t  valid = (ccs_bool_t)7;
	mk(V_CASE % 8);
	const int how = V_CASE / 8; /* 0 values, 1 a configuration, 2 values and one parameter cannot tell, 3 a configuration of another space or another size */
	PFAIL = how == 2 ? 1 : 0;
	for (int k = 0; k < 3; k++)
		v[k] = nd_value();
	ccs_result_t r;
	if (how == 0 || how == 2)
		r = ccs_configuration_space_check_configuration_values(&S, N3, v, &valid);
	else {
		ccs_configuration_t c;
		v_check(OK(ccs_create_configuration(&S, 0, NULL, &c)), "a configuration");
		for (size_t k = 0; k < 3; k++)
			c->data->values[k] = v[k];
		if (how == 3 && nd_bool())
			r = ccs_configuration_space_check_configuration_values(&S, N3 - 1, N3 - 1 ? v : NULL, &valid);
		else {
			if (how == 3)
				c->data->configuration_space = &S2;
			r = ccs_configuration_space_check_configuration(&S, c, &valid);
		}
		for (size_t k = 0; k < 3; k++)
			v_check(c->data->values[k].type == v[k].type && c->data->values[k].value.i == v[k].value.i, "checking changes nothing");
		v_check(c->obj.refcount == 1, "checking keeps nothing");
	}
	if (how == 3) {
		v_check(!OK(r), "a configuration of another space or size is refused");
		V_REACH("end");
		return;
	}
	int bad, sure, ok = spec(v, &bad, &sure);
	if (sure)
		v_check(OK(r) && valid == (ok ? CCS_TRUE : CCS_FALSE), "valid exactly when activation, values and clauses say so");
	else
		v_check(!OK(r) || (valid == CCS_FALSE && bad), "what cannot be evaluated is never called valid");
	v_check(ccs_configuration_space_check_configuration_values(&S, N3, NULL, &valid) != CCS_RESULT_SUCCESS && ccs_configuration_space_check_configuration_values(&S, N3, v, NULL) != CCS_RESULT_SUCCESS && ccs_configuration_space_check_configuration(&S, NULL, &valid) != CCS_RESULT_SUCCESS, "bad arguments");
	V_REACH("end");
}
/* activation of a configuration given the value every parameter has when active */
static void
activated(const ccs_datum_t *v, const ccs_datum_t *full)
{
	for (size_t k = 0; k < N3; k++) {
		int on = !BP[k].condition || kind(&X[k], v) == R_TRUE;
		v_check(on ? v[k].type == full[k].type && v[k].value.i == full[k].value.i : v[k].type == CCS_DATA_TYPE_INACTIVE, "a parameter is active exactly when its condition is true");
	}
}
//@unit cs_default cases=16 prop=C12,C17 unwind=10 bounded="8 spaces of up to 3 parameters with up to 3 conditions" flags="--memory-leak-check" funcs=ccs_configuration_space_get_default_configuration,_set_actives,_generate_constraints,_recompute_graph,_topological_sort
void
h_cs_default(void)
{
	ccs_configuration_t c = NULL;
	mk(V_CASE % 8);
	if (V_CASE / 8) {
		PFAIL = nd_bool() ? 0 : 1, CFFAIL = PFAIL ? -1 : 0;
	}
	ccs_result_t r = ccs_configuration_space_get_default_configuration(&S, &c);
	if (V_CASE / 8)
		v_check(!OK(r) && c == NULL && (NCF == 0 || CF[0].c.obj.refcount == 0), "failures are reported and leave nothing behind");
	else if (OK(r)) {
		ccs_datum_t full[3];
		for (int k = 0; k < 3; k++)
			full[k] = P[k].def;
		v_check(c == &CF[0].c && c->obj.refcount == 1 && NCF == 1, "one configuration, for the caller");
		activated(c->data->values, full);
	} else {
		int err = 0;
		for (size_t k = 0; k < N3; k++)
			if (BP[k].condition)
				for (int m = 0; m < 8; m++)
					err |= X[k].tab[m] == R_ERROR;
		v_check(err && c == NULL && CF[0].c.obj.refcount == 0, "fails only when an evaluation fails, leaving nothing behind");
	}
	v_check(ccs_configuration_space_get_default_configuration(&S, NULL) != CCS_RESULT_SUCCESS, "bad arguments");
	V_REACH("end");
}
/* sampling one; V_CASE / 8: 0 arbitrary, found by the third try, 1 a component
 * cannot be sampled, 2 no configuration, 3 no memory */
//@unit cs_sample cases=32 prop=C12,C17 unwind=10 bounded="8 spaces of up to 3 parameters with up to 3 conditions and 2 clauses, three tries" flags="--memory-leak-check" funcs=ccs_configuration_space_sample,_sample,_set_actives,_test_forbidden
void
h_cs_sample(void)
{
	ccs_configuration_t c = NULL;
	mk(V_CASE % 8);
	const int fail = V_CASE / 8;
	for (unsigned k = 0; k < 2; k++)
		FT[k][2] = R_ERROR; /* rounds are counted from one: decided by the second */
	DFAIL = fail == 1 ? 1 : 0, CFFAIL = fail == 2 ? 0 : -1;
	V_OOMAT = fail == 3 ? 1 : 0;
	ccs_result_t r = ccs_configuration_space_sample(&S, &c);
	V_OOMAT = 0;
	if (fail && (fail < 3 || V_HIT))
		v_check(!OK(r) && c == NULL && (NCF == 0 || CF[0].c.obj.refcount == 0), "failures are reported and leave nothing behind");
	else if (OK(r)) {
		int bad, sure, ok = spec(c->data->values, &bad, &sure);
		v_check(c == &CF[0].c && c->obj.refcount == 1 && NCF == 1, "one configuration, for the caller");
		activated(c->data->values, SV);
		v_check(ok && sure, "a sampled configuration is valid");
	} else {
		int err = 0;
		for (size_t k = 0; k < N3; k++)
			if (BP[k].condition)
				for (int m = 0; m < 8; m++)
					err |= X[k].tab[m] == R_ERROR;
		for (unsigned k = 0; k < AF.i; k++)
			for (int m = 0; m < 3; m++)
				err |= FT[k][m] == R_ERROR;
		v_check(err && c == NULL && CF[0].c.obj.refcount == 0, "fails only when an evaluation fails, leaving nothing behind");
	}
	V_REACH("end");
}
/* giving up: a clause that is always true */
//@unit cs_giveup cases=2 prop=C17 unwind=104 bounded="one parameter, a clause that is always true" flags="--memory-leak-check" funcs=ccs_configuration_space_sample,ccs_configuration_space_samples
void
h_cs_giveup(void)
{
	ccs_configuration_t c[2] = {NULL, NULL};
	mk(0);
	for (int m = 0; m < 3; m++)
		FT[0][m] = R_TRUE;
	ccs_result_t r = V_CASE == 0 ? ccs_configuration_space_sample(&S, c) : ccs_configuration_space_samples(&S, 1, c);
	v_check(r == CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL && c[0] == NULL && NCF == 1 && CF[0].c.obj.refcount == 0, "giving up is reported and leaves nothing behind");
	V_REACH("end");
}
/* Several at once: the tries that are refused by the clause, and what fails.
 * t[k]: the k-th try is found (1), refused (0), fails (2) */
static const struct { size_t n; int g, t[4], cf, oom; } MS[] = {{0, 0, {0}, -1, 0}, {1, 0, {1}, -1, 0}, {1, 0, {0, 1}, -1, 0}, {2, 0, {1, 1}, -1, 0}, {2, 0, {1, 0, 1}, -1, 0}, {2, 2, {0, 1, 1}, -1, 0}, {2, 0, {1, 2}, -1, 0}, {2, 0, {2}, -1, 0}, {2, 0, {1, 1}, 0, 0}, {2, 0, {1, 1}, 1, 0}, {2, 0, {1, 1}, -1, 1}, {2, 0, {1, 1}, -1, 2}, {2, 6, {1, 1}, -1, 0}, {2, 3, {0, 0, 1, 1}, -1, 0}};
//@unit cs_samples cases=14 prop=C12,C17 unwind=10 bounded="two configurations, four tries" flags="--memory-leak-check" funcs=ccs_configuration_space_samples,_sample
void
h_cs_samples(void)
{
	ccs_configuration_t c[3] = {(ccs_configuration_t)&S2, (ccs_configuration_t)&S2, (ccs_configuration_t)&S2};
	const size_t n = MS[V_CASE].n;
	mk(MS[V_CASE].g);
	for (size_t k = 0; k < 3; k++)
		for (int m = 0; m < 8; m++)
			v_assume(X[k].tab[m] != R_ERROR);
	TRIES  = MS[V_CASE].t;
	CFFAIL = MS[V_CASE].cf, V_OOMAT = (unsigned)MS[V_CASE].oom;
	ccs_result_t r = ccs_configuration_space_samples(&S, n, n ? c : NULL);
	V_OOMAT = 0;
	int fails = V_HIT || CFFAIL >= 0 && NCF == CFFAIL;
	for (int k = 0; k < ROUND && k < 4; k++)
		fails |= TRIES[k] == 2;
	v_check(OK(r) == !fails, "failures are reported");
	int alive = 0;
	for (int k = 0; k < NCF; k++) {
		v_check(CF[k].c.obj.refcount == 0 || CF[k].c.obj.refcount == 1, "one reference each");
		alive += CF[k].c.obj.refcount;
	}
	int given = 0;
	for (size_t k = 0; k < n; k++) {
		given += c[k] != NULL;
		if (c[k]) {
			v_check(c[k] == &CF[k].c && c[k]->obj.refcount == 1, "each configuration is one of its own, for the caller");
			for (size_t i = 0; i < N3; i++) {
				int on = !BP[i].condition || kind(&X[i], CF[k].v) == R_TRUE;
				v_check(on ? accepts(CF[k].v[i]) : CF[k].v[i].type == CCS_DATA_TYPE_INACTIVE, "a parameter is active exactly when its condition is true");
			}
		} else
			v_check(!OK(r), "as many as asked for");
	}
	v_check(alive == given, "configurations not given are released");
	v_check(c[n] == (ccs_configuration_t)&S2, "nothing past the array");
	V_REACH("end");
}
/* Forbidden clauses.  V_CASE: 0 accepted, 1 true of the default configuration,
 * 2 cannot be evaluated, 3 refers to other parameters, 4 no default
 * configuration, 5 no memory, 6 not an expression, 7 inactive, 8 a number */
//@unit cs_forbid cases=9 prop=C12,C17,C18 unwind=10 bounded="one or three parameters, one clause more" flags="--memory-leak-check" funcs=ccs_configuration_space_add_forbidden_clause,ccs_configuration_space_add_forbidden_clauses,ccs_configuration_space_get_forbidden_clause
void
h_cs_forbid(void)
{
	static const uint8_t K[9] = {R_FALSE, R_TRUE, R_ERROR, R_FALSE, R_FALSE, R_FALSE, R_FALSE, R_INACTIVE, R_ONE};
	mk(0);
	const unsigned n0 = V_CASE == 5 ? 0 : 1;
	struct vx     *x  = &F[n0];
	AF.i = n0;
	if (V_CASE == 5)
		AF.n = 0, AF.d = NULL, V_OOMAT = 1, V_PTR64 = 1;
	for (int m = 0; m < 3; m++)
		FT[n0][m] = K[V_CASE];
	CTXBAD = V_CASE == 3, PFAIL = V_CASE == 4;
	V_PTR64 = 1;
	if (V_CASE == 6)
		x->obj.type = CCS_OBJECT_TYPE_RNG;
	ccs_expression_t e = (ccs_expression_t)x;
	ccs_result_t     r = V_CASE == 0 ? ccs_configuration_space_add_forbidden_clauses(&S, 1, &e) : ccs_configuration_space_add_forbidden_clause(&S, e);
	V_OOMAT = 0;
	int fine = V_CASE == 0 || V_CASE >= 7 || V_CASE == 5 && !V_HIT;
	v_check(OK(r) == fine, "a clause is added unless it forbids the default configuration");
	v_check(NCF == 0 || CF[0].c.obj.refcount == 0, "nothing left behind");
	v_check(x->obj.refcount == 1 + fine, "only a clause that is added is kept");
	v_check(AF.i == n0 + (unsigned)fine, "the clauses");
	ccs_expression_t q = NULL;
	if (n0)
		v_check(OK(ccs_configuration_space_get_forbidden_clause(&S, 0, &q)) && q == (ccs_expression_t)&F[0], "earlier clauses stay");
	if (fine)
		v_check(OK(ccs_configuration_space_get_forbidden_clause(&S, n0, &q)) && q == e, "the clause is the last one");
	v_check(!OK(ccs_configuration_space_get_forbidden_clause(&S, AF.i, &q)) && !OK(ccs_configuration_space_add_forbidden_clauses(&S, 1, NULL)), "bad arguments");
	if (V_CASE == 5 && fine)
		free(AF.d);
	V_REACH("end");
}
/* list queries and accessors: V_CASE 0 clauses, 1 conditions, 2 parameters */
//@unit cs_lists cases=3 prop=C14 unwind=10 bounded="3 parameters, 2 conditions, 1 clause" funcs=ccs_configuration_space_get_conditions,ccs_configuration_space_get_forbidden_clauses,ccs_configuration_space_get_parameters,_ccs_context_get_parameters,_ccs_context_get_parameter_indexes,ccs_configuration_space_get_parameter_indexes,ccs_configuration_space_get_rng,ccs_configuration_space_set_rng,ccs_configuration_space_get_name
void
h_cs_lists(void)
{
	void        *out[6];
	size_t       n = nd_upto(6), cnt = 99;
	int          hasret = nd_bool(), hasout = nd_bool();
	const size_t exp = V_CASE == 0 ? 1 : 3;
	ccs_result_t r;
	mk(2);
	for (int k = 0; k < 6; k++)
		out[k] = &S2;
	if (V_CASE == 0)
		r = ccs_configuration_space_get_forbidden_clauses(&S, n, hasout ? (ccs_expression_t *)out : NULL, hasret ? &cnt : NULL);
	else if (V_CASE == 1)
		r = ccs_configuration_space_get_conditions(&S, n, hasout ? (ccs_expression_t *)out : NULL, hasret ? &cnt : NULL);
	else
		r = ccs_configuration_space_get_parameters(&S, n, hasout ? (ccs_parameter_t *)out : NULL, hasret ? &cnt : NULL);
	v_check(OK(r) == !((!hasout && n) || (!hasout && !hasret) || (hasout && n < exp)), "the array protocol");
	v_check(!OK(r) || !hasret || cnt == exp, "the count is that of the whole");
	for (size_t k = 0; k < 6; k++) {
		void *it = k >= exp ? NULL : V_CASE == 0 ? (void *)&F[k] : V_CASE == 1 ? (void *)(k < 2 ? &X[k] : NULL) : (void *)&P[k];
		v_check(out[k] == (OK(r) && hasout && k < n ? it : (void *)&S2), "the elements in order, then nothing, nothing past the array, nothing when refused");
	}
	/* accessors */
	size_t          ix[2] = {99, 99}, kk;
	ccs_parameter_t ps[2] = {(ccs_parameter_t)&P[2], (ccs_parameter_t)&P[0]};
	v_check(OK(ccs_configuration_space_get_parameter_indexes(&S, 2, ps, ix)) && ix[0] == 2 && ix[1] == 0, "positions by identity");
	ps[1] = (ccs_parameter_t)&P[3];
	v_check(!OK(ccs_configuration_space_get_parameter_indexes(&S, 2, ps, ix)) && !OK(ccs_configuration_space_get_parameter_index(&S, ps[1], &kk)), "other parameters refused");
	v_check(!OK(ccs_configuration_space_get_parameter_indexes(&S, 2, NULL, ix)) && !OK(ccs_configuration_space_get_parameter_indexes(&S, 2, ps, NULL)), "bad arguments");
	const char *nm = NULL;
	ccs_rng_t   g  = NULL;
	static struct vd RG2;
	RG2 = RG, RG2.obj.refcount = 1;
	v_check(OK(ccs_configuration_space_get_name(&S, &nm)) && nm == D.name && OK(ccs_configuration_space_get_rng(&S, &g)) && g == (ccs_rng_t)&RG, "name and generator");
	v_check(OK(ccs_configuration_space_set_rng(&S, (ccs_rng_t)&RG2)) && OK(ccs_configuration_space_get_rng(&S, &g)) && g == (ccs_rng_t)&RG2 && RG2.obj.refcount == 2 && RG.obj.refcount == 0, "the generator given is held, the old one released");
	v_check(OK(ccs_configuration_space_set_rng(&S, (ccs_rng_t)&RG2)) && RG2.obj.refcount == 2, "set again");
	v_check(!OK(ccs_configuration_space_set_rng(&S, (ccs_rng_t)&P[0])) && !OK(ccs_configuration_space_get_name(&S, NULL)) && !OK(ccs_configuration_space_get_rng(&S, NULL)) && !OK(ccs_configuration_space_get_name((ccs_configuration_space_t)&P[0], &nm)), "bad arguments");
	V_REACH("end");
}
