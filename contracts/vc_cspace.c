/* Contracts for the building operations of src/configuration_space.c. */
//@property C18
//@assume parameters, distributions, expressions and random generators by contract (units of C06 to C11); uthash by the contract of include/vhash.h, which may run out of memory; qsort sorts
#include "cspace_pre.inc"
#include "cspace.inc"
/* not reached by these units */
ccs_result_t ccs_expression_eval(ccs_expression_t e, ccs_context_t c, ccs_datum_t *v, ccs_datum_t *r) { v_check(0, "not evaluated here"); return CCS_RESULT_ERROR_INVALID_VALUE; }
/* a condition names its parameters, possibly several times */
ccs_result_t
ccs_expression_get_parameters(ccs_expression_t e, size_t n, ccs_parameter_t *p, size_t *ret)
{
	struct vx *x = (struct vx *)e;
	if (x->bad)
		return CCS_RESULT_ERROR_OUT_OF_MEMORY;
	v_check(p != NULL || n == 0, "array protocol");
	if (p) {
		v_check(n >= x->n, "array protocol");
		for (size_t k = 0; k < x->n; k++)
			p[k] = (ccs_parameter_t)&P[x->p[k]];
	}
	if (ret)
		*ret = x->n;
	return CCS_RESULT_SUCCESS;
}
/* The consistency of a space: n parameters (P[at[k]] at position k), each
 * component known by exactly its parameters, and every lookup agreeing. */
static void
consistent(ccs_configuration_space_t s, size_t n, const int *at)
{
	size_t cnt = 0;
	v_check(OK(ccs_configuration_space_get_num_parameters(s, &cnt)) && cnt == n, "number of parameters");
	unsigned seen = 0;
	for (size_t k = 0; k < n; k++) {
		ccs_parameter_t p = NULL, q = NULL;
		size_t          i = 99, j = 99;
		ccs_parameter_t h = (ccs_parameter_t)&P[at[k]];
		v_check(OK(ccs_configuration_space_get_parameter(s, k, &p)) && p == h, "found by position");
		v_check(OK(ccs_configuration_space_get_parameter_by_name(s, P[at[k]].name, &q)) && q == h && OK(ccs_configuration_space_get_parameter_index_by_name(s, P[at[k]].name, &j)) && j == k, "found by name");
		v_check(OK(ccs_configuration_space_get_parameter_index(s, h, &i)) && i == k, "found by identity");
		v_check(P[at[k]].obj.refcount == 2, "held once by the space");
		size_t o = ((size_t *)s->data->sorted_indexes->d)[k];
		v_check(o < n && !(seen >> o & 1), "every parameter is evaluated once");
		seen |= 1u << o;
	}
	v_check(utarray_len(s->data->sorted_indexes) == n, "every parameter is evaluated once");
	ccs_parameter_t p;
	v_check(!OK(ccs_configuration_space_get_parameter(s, n, &p)), "nothing past the parameters");
	_ccs_distribution_wrapper_t *dw;
	unsigned                     in[NPMAX] = {0};
	size_t                       comps = 0;
	DL_FOREACH(s->data->distribution_list, dw)
	{
		v_check(REFS(dw->distribution) > 0 && ((struct vd *)dw->distribution)->dim == dw->dimension, "a component is a distribution over its parameters");
		for (size_t j = 0; j < dw->dimension; j++) {
			size_t                       i = dw->parameter_indexes[j];
			v_check(i < n, "components are over parameters of the space");
			_ccs_parameter_wrapper_cs_t *w = (_ccs_parameter_wrapper_cs_t *)utarray_eltptr(s->data->parameters, i);
			v_check(w->distribution == dw && w->distribution_index == j, "a parameter knows its component");
			in[i]++;
			ccs_distribution_t d;
			size_t             x;
			v_check(OK(ccs_configuration_space_get_parameter_distribution(s, i, &d, &x)) && d == dw->distribution && x == j, "its distribution is reported");
		}
		v_check(++comps <= n, "no more components than parameters");
	}
	for (size_t k = 0; k < n; k++)
		v_check(in[k] == 1, "each parameter belongs to exactly one component");
}
static void
released(int np)
{
	for (int k = 0; k < NP; k++)
		v_check(P[k].obj.refcount == 1 && DG[k].obj.refcount == 1 && DD[k].obj.refcount == 0 && X[k].obj.refcount == 1, "a destroyed space holds nothing");
	v_check(RG.obj.refcount == 0, "a destroyed space holds nothing");
}
static const int AT[3] = {0, 1, 2};
/* Creation and parameters added one by one.  V_CASE 0: no failure; 1 to 5: an
 * allocation of the creation fails; 6: no random generator; 7 to 14: the
 * allocations of the second parameter fail in turn (7 to 12 memory, 13 and 14
 * the two hashes), which is then added again. */
//@unit cs_add cases=15 prop=C12,C18 unwind=14 bounded="3 parameters, names of up to 2 characters" flags="--memory-leak-check" funcs=ccs_create_configuration_space,ccs_configuration_space_add_parameter,ccs_configuration_space_add_parameters,_ccs_configuration_space_del,ccs_configuration_space_get_parameter,ccs_configuration_space_get_parameter_index,ccs_configuration_space_get_parameter_by_name,ccs_configuration_space_get_parameter_index_by_name
void
h_cs_add(void)
{
	ccs_configuration_space_t s = NULL;
	base();
	V_OOMAT = V_CASE >= 1 && V_CASE <= 4 ? V_CASE : 0;
	RNGFAIL = V_CASE == 6;
	ccs_result_t r = V_CASE == 5 ? ccs_create_configuration_space(NULL, &s) : ccs_create_configuration_space("cs", &s);
	v_check(OK(r) == !(V_CASE >= 1 && V_CASE <= 6), "a space is created unless memory runs out");
	if (!OK(r)) {
		v_check(s == NULL, "nothing given");
		released(0);
		V_REACH("end");
		return;
	}
	v_check(REFS(s) == 1 && NRNG == 1, "one reference");
	consistent(s, 0, AT);
	v_check(OK(ccs_configuration_space_add_parameter(s, (ccs_parameter_t)&P[0], (ccs_distribution_t)&DG[0])) && DG[0].obj.refcount == 2, "a parameter and its distribution are kept");
	consistent(s, 1, AT);
	if (V_CASE >= 7) {
		/* make room run out */
		V_ALLOCS = 0, V_HADDS = 0;
		if (V_CASE >= 11) { /* arrays are grown by the first parameter: take the room away */
			s->data->sorted_indexes->n = 1, s->data->parameters->n = 1;
		}
		V_OOMAT  = V_CASE <= 12 ? V_CASE - 6 : 0;
		V_HOOMAT = V_CASE == 13 ? 1 : V_CASE == 14 ? 2 : 0;
		size_t c0 = s->data->sorted_indexes->i;
		v_check(!OK(ccs_configuration_space_add_parameter(s, (ccs_parameter_t)&P[1], NULL)), "out of memory is reported");
		V_OOMAT = V_HOOMAT = 0;
		v_check(P[1].obj.refcount == 1 && DD[1].obj.refcount == 0 && DG[0].obj.refcount == 2 && c0 == 1, "what was refused is not kept");
		ccs_parameter_t p;
		v_check(!OK(ccs_configuration_space_get_parameter_by_name(s, "ab", &p)), "what was refused is not found");
		consistent(s, 1, AT);
	}
	v_check(OK(ccs_configuration_space_add_parameter(s, (ccs_parameter_t)&P[1], NULL)) && DD[1].obj.refcount == 1, "a parameter is kept with its default distribution");
	consistent(s, 2, AT);
	s->obj.ops->del((ccs_object_t)s);
	free(s);
	released(2);
	V_REACH("end");
}
/* What may not be added is refused and leaves the space as it was; several are
 * added in turn.  V_CASE: 0 same name, 1 a string parameter, 2 a distribution of
 * two dimensions, 3 something else than a distribution, 4 its default
 * distribution cannot be made, 5 not a parameter, 6 the parameter itself again */
//@unit cs_refuse cases=7 prop=C12,C18 unwind=14 bounded="3 parameters, names of up to 2 characters" flags="--memory-leak-check" funcs=ccs_configuration_space_add_parameter,ccs_configuration_space_add_parameters
void
h_cs_refuse(void)
{
	ccs_configuration_space_t s = NULL;
	base();
	v_check(OK(ccs_create_configuration_space("cs", &s)), "created");
	ccs_parameter_t    ps[3] = {(ccs_parameter_t)&P[0], (ccs_parameter_t)&P[1], (ccs_parameter_t)&P[2]};
	ccs_distribution_t ds[3] = {NULL, (ccs_distribution_t)&DG[1], NULL};
	v_check(OK(ccs_configuration_space_add_parameters(s, 2, ps, ds)), "two parameters added");
	v_check(DD[0].obj.refcount == 1 && DG[1].obj.refcount == 2, "with their distributions");
	struct vp *p = V_CASE == 0 ? &P[3] : V_CASE == 6 ? &P[1] : &P[2];
	struct vd *d = V_CASE == 4 ? NULL : &DG[2];
	if (V_CASE == 1)
		p->type = CCS_PARAMETER_TYPE_STRING;
	if (V_CASE == 2)
		d->dim = 2;
	if (V_CASE == 3)
		d->obj.type = CCS_OBJECT_TYPE_RNG;
	p->nodist = V_CASE == 4;
	if (V_CASE == 5)
		p->obj.type = CCS_OBJECT_TYPE_RNG;
	v_check(!OK(ccs_configuration_space_add_parameter(s, (ccs_parameter_t)p, (ccs_distribution_t)d)), "refused");
	v_check(P[2].obj.refcount == 1 && P[3].obj.refcount == 1 && DG[2].obj.refcount == 1 && DD[2].obj.refcount == 0, "what was refused is not kept");
	P[2].type = CCS_PARAMETER_TYPE_NUMERICAL, P[2].obj.type = CCS_OBJECT_TYPE_PARAMETER, P[2].nodist = 0;
	consistent(s, 2, AT);
	size_t i;
	ccs_parameter_t q;
	v_check(!OK(ccs_configuration_space_get_parameter_index(s, ps[2], &i)) && !OK(ccs_configuration_space_get_parameter_by_name(s, "b", &q)) && !OK(ccs_configuration_space_get_parameter_index_by_name(s, "b", &i)), "what was refused is not found");
	v_check(OK(ccs_configuration_space_add_parameters(s, 1, ps + 2, NULL)), "a parameter added");
	consistent(s, 3, AT);
	v_check(!OK(ccs_configuration_space_add_parameters(s, 1, NULL, NULL)), "no array");
	s->obj.ops->del((ccs_object_t)s);
	free(s);
	released(3);
	V_REACH("end");
}
/* Joint distributions.  Three parameters whose components are, before: 0 three
 * of one, 1 {0,1} {2}, 2 {2,0} {1}, 3 {1,2} {0}, 4 {2,1,0}; a distribution of n
 * dimensions is set over the positions i.  f: 0 none, k > 0: the k-th allocation
 * fails, -1: no default distribution for the parameters left over */
static const struct { int part, n, i[3], f; } SD[] = {
	{0, 1, {1}, 0}, {0, 2, {0, 2}, 0}, {0, 2, {2, 1}, 0}, {0, 3, {2, 0, 1}, 0}, {1, 1, {0}, 0}, {1, 1, {1}, 0}, {1, 1, {2}, 0}, {1, 2, {1, 0}, 0}, {1, 2, {1, 2}, 0}, {1, 2, {2, 0}, 0}, {1, 3, {0, 1, 2}, 0},
	{2, 1, {0}, 0}, {2, 2, {0, 1}, 0}, {2, 2, {2, 1}, 0}, {3, 2, {1, 0}, 0}, {3, 2, {2, 0}, 0}, {3, 1, {1}, 0}, {4, 1, {0}, 0}, {4, 1, {1}, 0}, {4, 2, {0, 2}, 0}, {4, 2, {1, 2}, 0}, {4, 3, {0, 1, 2}, 0},
	{0, 2, {1, 1}, 0}, {0, 2, {0, 3}, 0}, {0, 3, {0, 1, 0}, 0}, {0, 1, {3}, 0}, {4, 2, {2, 2}, 0}, {4, 1, {0}, 1}, {4, 1, {0}, 2}, {4, 1, {0}, 3}, {4, 1, {0}, 4}, {4, 1, {0}, -1}, {1, 2, {1, 2}, 1}, {1, 2, {1, 2}, 2}, {1, 2, {1, 2}, 3}, {1, 2, {1, 2}, -1}};
static size_t
dist_of(ccs_configuration_space_t s, size_t k, struct vd **d)
{
	ccs_distribution_t x = NULL;
	size_t             i = 99;
	v_check(OK(ccs_configuration_space_get_parameter_distribution(s, k, &x, &i)), "reported");
	*d = (struct vd *)x;
	return i;
}
//@unit cs_dist cases=36 prop=C12,C18 unwind=14 bounded="3 parameters, 36 patterns of components and positions" flags="--memory-leak-check" funcs=ccs_configuration_space_set_distribution,ccs_configuration_space_get_parameter_distribution
void
h_cs_dist(void)
{
	static const int PART[5][2][4] = {{{0}, {0}}, {{2, 0, 1}, {0}}, {{2, 2, 0}, {0}}, {{2, 1, 2}, {0}}, {{3, 2, 1, 0}, {0}}};
	ccs_configuration_space_t s = NULL;
	base();
	v_check(OK(ccs_create_configuration_space("cs", &s)), "created");
	ccs_parameter_t ps[3] = {(ccs_parameter_t)&P[0], (ccs_parameter_t)&P[1], (ccs_parameter_t)&P[2]};
	v_check(OK(ccs_configuration_space_add_parameters(s, 3, ps, NULL)), "three parameters added");
	const int *q = PART[SD[V_CASE].part][0];
	size_t     idx[3];
	if (q[0]) { /* components before */
		for (int k = 0; k < 3; k++)
			idx[k] = (size_t)q[1 + k];
		DG[1].dim = (size_t)q[0];
		v_check(OK(ccs_configuration_space_set_distribution(s, (ccs_distribution_t)&DG[1], idx)) && DG[1].obj.refcount == 2, "set");
		consistent(s, 3, AT);
	}
	struct vd *before[3], *after[3];
	size_t     pos[3], now[3];
	int        valid = 1;
	for (size_t k = 0; k < 3; k++)
		pos[k] = dist_of(s, k, &before[k]);
	DG[0].dim = (size_t)SD[V_CASE].n;
	for (int k = 0; k < 3; k++)
		idx[k] = (size_t)SD[V_CASE].i[k];
	for (int k = 0; k < SD[V_CASE].n; k++) {
		valid &= idx[k] < 3;
		for (int j = 0; j < k; j++)
			valid &= idx[j] != idx[k];
	}
	V_ALLOCS = 0, V_HIT = 0, V_OOMAT = SD[V_CASE].f > 0 ? (unsigned)SD[V_CASE].f : 0;
	int r0[3];
	for (int k = 0; k < 3; k++)
		P[k].nodist = SD[V_CASE].f < 0, r0[k] = DD[k].obj.refcount;
	ccs_result_t r = ccs_configuration_space_set_distribution(s, (ccs_distribution_t)&DG[0], idx);
	V_OOMAT = 0;
	v_check(OK(r) == (valid && !V_HIT && SD[V_CASE].f >= 0), "set exactly over distinct positions of the space");
	for (size_t k = 0; k < 3; k++)
		P[k].nodist = 0, now[k] = dist_of(s, k, &after[k]);
	if (OK(r)) {
		v_check(DG[0].obj.refcount == 2, "held by the space");
		int gone = q[0] == 0;
		for (size_t k = 0; k < 3; k++) {
			int in = -1, broken = 0;
			for (int j = 0; j < SD[V_CASE].n; j++) {
				if (idx[j] == k)
					in = j;
				broken |= before[idx[j]] == before[k];
			}
			if (in >= 0)
				v_check(after[k] == &DG[0] && now[k] == (size_t)in, "the positions given, in that order");
			else if (broken)
				v_check(after[k] == &DD[k] && now[k] == 0, "a parameter left over by a component gets its default distribution");
			else
				v_check(after[k] == before[k] && now[k] == pos[k], "other parameters keep their distribution");
			gone |= broken && before[k] == &DG[1];
			v_check(DD[k].obj.refcount == (after[k] == &DD[k]), "default distributions are held once");
		}
		if (q[0])
			v_check(DG[1].obj.refcount == (gone ? 1 : 2), "a component that is replaced is released");
	} else
		for (size_t k = 0; k < 3; k++)
			v_check(after[k] == before[k] && now[k] == pos[k] && DG[0].obj.refcount == 1 && DD[k].obj.refcount == r0[k], "a refused distribution leaves the components as they were");
	consistent(s, 3, AT);
	s->obj.ops->del((ccs_object_t)s);
	free(s);
	released(3);
	V_REACH("end");
}
/* Conditions.  Three parameters; up to three conditions set in turn: c[k] = {the
 * position, number of parameters in the condition, which}.  Parameter 3 is not
 * of the space.  f: the k-th allocation of the last one fails, -1: the
 * parameters of the expression cannot be had */
static const struct { int n; struct { int at, n, p[3]; } c[3]; int f; } SC[] = {
	{1, {{0, 1, {1}}}, 0}, {1, {{2, 2, {0, 1}}}, 0}, {1, {{0, 1, {0}}}, 0}, {1, {{1, 2, {0, 1}}}, 0}, {1, {{0, 0, {0}}}, 0}, {1, {{0, 3, {2, 1, 2}}}, 0}, {1, {{0, 2, {1, 3}}}, 0}, {1, {{3, 1, {0}}}, 0},
	{2, {{0, 1, {1}}, {1, 1, {2}}}, 0}, {2, {{0, 1, {1}}, {1, 1, {0}}}, 0}, {2, {{0, 1, {1}}, {0, 1, {2}}}, 0}, {2, {{0, 1, {2}}, {1, 1, {2}}}, 0}, {2, {{1, 1, {2}}, {0, 2, {2, 1}}}, 0}, {2, {{2, 1, {1}}, {1, 2, {0, 2}}}, 0}, {2, {{0, 2, {1, 2}}, {2, 1, {1}}}, 0},
	{3, {{0, 1, {1}}, {1, 1, {2}}, {2, 1, {0}}}, 0}, {3, {{0, 1, {1}}, {1, 1, {0}}, {1, 1, {2}}}, 0}, {3, {{0, 1, {2}}, {1, 1, {0}}, {2, 1, {1}}}, 0}, {3, {{0, 1, {2}}, {2, 1, {0}}, {1, 1, {0}}}, 0},
	{1, {{0, 1, {1}}}, 1}, {1, {{0, 1, {1}}}, 2}, {1, {{0, 1, {1}}}, 3}, {1, {{0, 1, {1}}}, 4}, {2, {{0, 1, {1}}, {1, 1, {2}}}, 1}, {2, {{0, 1, {1}}, {1, 1, {2}}}, 2}, {2, {{0, 1, {1}}, {1, 1, {2}}}, 3}, {2, {{0, 1, {1}}, {1, 1, {2}}}, 4}, {2, {{0, 1, {1}}, {1, 1, {2}}}, -1}};
#define NSC (sizeof(SC) / sizeof(*SC))
//@unit cs_cond cases=28 prop=C12,C18 unwind=14 bounded="3 parameters, 28 sequences of conditions" flags="--memory-leak-check" funcs=ccs_configuration_space_set_condition,_generate_constraints,_recompute_graph,_topological_sort,_uniq_size_t_array,ccs_configuration_space_get_condition,ccs_configuration_space_get_conditions
void
h_cs_cond(void)
{
	ccs_configuration_space_t s = NULL;
	base();
	v_check(OK(ccs_create_configuration_space("cs", &s)), "created");
	ccs_parameter_t ps[3] = {(ccs_parameter_t)&P[0], (ccs_parameter_t)&P[1], (ccs_parameter_t)&P[2]};
	v_check(OK(ccs_configuration_space_add_parameters(s, 3, ps, NULL)), "three parameters added");
	int cond[3] = {-1, -1, -1}; /* the condition of each */
	int m       = SC[V_CASE].n;
	for (int k = 0; k < m; k++) {
		int at = SC[V_CASE].c[k].at;
		X[k].n = (size_t)SC[V_CASE].c[k].n;
		for (int j = 0; j < 3; j++)
			X[k].p[j] = SC[V_CASE].c[k].p[j];
		/* which parameters depend on which, with the new condition */
		unsigned dep[3] = {0, 0, 0};
		int      ok     = at < 3 && cond[at < 3 ? at : 0] < 0;
		for (int i = 0; i < 3; i++) {
			int c = i == at && ok ? k : cond[i];
			if (c >= 0)
				for (int j = 0; j < (int)X[c].n; j++) {
					if (X[c].p[j] >= 3)
						ok = 0;
					else
						dep[i] |= 1u << X[c].p[j];
				}
		}
		for (int t = 0; t < 3; t++)
			for (int i = 0; i < 3; i++)
				for (int j = 0; j < 3; j++)
					if (dep[i] >> j & 1)
						dep[i] |= dep[j];
		for (int i = 0; i < 3; i++)
			ok &= !(dep[i] >> i & 1);
		V_HIT = 0;
		if (k == m - 1) {
			V_ALLOCS = 0, V_OOMAT = SC[V_CASE].f > 0 ? (unsigned)SC[V_CASE].f : 0;
			X[k].bad = SC[V_CASE].f < 0;
			if (SC[V_CASE].f > 0 && V_CASE != 19) /* the arrays have to grow */
				for (int i = 0; i < 3; i++) {
					_ccs_parameter_wrapper_cs_t *w = (_ccs_parameter_wrapper_cs_t *)utarray_eltptr(s->data->parameters, i);
					v_check(w->parents->n == 0 || w->parents->n == 8, "arrays of eight");
				}
		}
		ccs_result_t r = ccs_configuration_space_set_condition(s, (size_t)at, (ccs_expression_t)&X[k]);
		V_OOMAT = 0;
		v_check(OK(r) == (ok && !V_HIT && !X[k].bad), "a condition is set exactly when it refers to parameters of the space, makes no cycle and is the first of its parameter");
		X[k].bad = 0;
		if (OK(r))
			cond[at] = k;
		v_check(X[k].obj.refcount == 1 + OK(r), "only a condition that is set is kept");
	}
	ccs_expression_t e = NULL, l[4];
	for (size_t k = 0; k < 3; k++)
		v_check(OK(ccs_configuration_space_get_condition(s, k, &e)) && e == (cond[k] < 0 ? NULL : (ccs_expression_t)&X[cond[k]]), "the condition of each parameter");
	size_t n = 0;
	v_check(OK(ccs_configuration_space_get_conditions(s, 4, l, &n)) && n == 3 && l[3] == NULL, "all conditions");
	for (int k = 0; k < 3; k++)
		v_check(l[k] == (cond[k] < 0 ? NULL : (ccs_expression_t)&X[cond[k]]), "the condition of each parameter");
	v_check(!OK(ccs_configuration_space_get_condition(s, 3, &e)) && !OK(ccs_configuration_space_get_conditions(s, 2, l, &n)), "out of range");
	if (!s->data->graph_ok) /* what the next use of the space does first */
		v_check(OK(_generate_constraints(s)), "the conditions set are acceptable");
	v_check(s->data->graph_ok, "ready for use");
	consistent(s, 3, AT);
	/* parameters come after those their condition depends on */
	int where[3] = {0, 0, 0};
	for (int k = 0; k < 3; k++)
		where[((size_t *)s->data->sorted_indexes->d)[k]] = k;
	for (int i = 0; i < 3; i++)
		if (cond[i] >= 0)
			for (int j = 0; j < (int)X[cond[i]].n; j++)
				v_check(where[X[cond[i]].p[j]] < where[i], "evaluated after what the condition depends on");
	s->obj.ops->del((ccs_object_t)s);
	free(s);
	released(3);
	V_REACH("end");
}
