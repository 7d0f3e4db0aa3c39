/* Nodes of a small tree for the units over trees and tree spaces. */
static double RND;
#ifndef V_DRAW
#define V_DRAW nd_f64()
#endif
double
gsl_rng_uniform(const gsl_rng *r)
{
	(void)r;
	RND = V_DRAW;
	v_assume(RND >= 0.0 && RND < 1.0);
	return RND;
}
ccs_result_t
ccs_rng_get_gsl_rng(ccs_rng_t r, gsl_rng **g)
{
	(void)r;
	*g = NULL;
	return CCS_RESULT_SUCCESS;
}
#include "tree.c"
/* nodes: 0, 1 of arity 2, 2 of arity 1, 3 of arity 0, laid out apart */
#define NN 4
static struct _ccs_tree_s T[NN];
static _ccs_tree_data_t   TD[NN];
static ccs_float_t        W[NN][3], A[NN][4];
static ccs_tree_t         CH[NN][2];
static const size_t       AR[NN] = {2, 2, 1, 0};
static void
mknode(int k)
{
	_ccs_object_init(&T[k].obj, CCS_OBJECT_TYPE_TREE, (_ccs_object_ops_t *)&_ccs_tree_ops);
	T[k].data         = &TD[k];
	TD[k].arity       = AR[k];
	TD[k].weights     = W[k];
	TD[k].areas       = A[k];
	TD[k].children    = CH[k];
	TD[k].bias        = 1.0;
	TD[k].parent      = NULL;
	TD[k].index       = 0;
	TD[k].value       = ccs_int(100 + k);
	TD[k].sum_weights = (double)(AR[k] + 1);
	for (size_t i = 0; i <= AR[k]; i++)
		W[k][i] = 1.0;
	for (size_t i = 0; i < AR[k]; i++)
		CH[k][i] = NULL;
	_ccs_distribution_roulette_normalize_areas(AR[k] + 1, W[k], 1.0 / (double)(AR[k] + 1), A[k]);
}
static void
mkall(void)
{
	for (int k = 0; k < NN; k++)
		mknode(k);
}
/* 0 -> [1] 1 -> [0] 2 -> [0] 3 */
static void
chain(int n)
{
	mkall();
	if (n > 0)
		v_check(ccs_tree_set_child(&T[0], 1, &T[1]) == CCS_RESULT_SUCCESS, "child set");
	if (n > 1)
		v_check(ccs_tree_set_child(&T[1], 0, &T[2]) == CCS_RESULT_SUCCESS, "child set");
	if (n > 2)
		v_check(ccs_tree_set_child(&T[2], 0, &T[3]) == CCS_RESULT_SUCCESS, "child set");
}
/* a position of the chain of 4: every index is a slot of the node reached, only
 * the last slot may be unset; leads to a node if that one is set too */
static int
reach(size_t n, const size_t *p)
{
	return n <= 3 && (n < 1 || p[0] < 2) && (n < 2 || (p[0] == 1 && p[1] < 2)) && (n < 3 || (p[1] == 0 && p[2] < 1));
}
static int
leads(size_t n, const size_t *p)
{
	return n <= 3 && (n < 1 || p[0] == 1) && (n < 2 || p[1] == 0) && (n < 3 || p[2] == 0);
}
