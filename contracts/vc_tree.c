/* Contracts for src/tree.c: structure, weights, positions, sampling. */
//@property C19
//@assume gsl_rng_uniform returns a number of [0, 1) (GSL documentation)
#include "vcommon.h"
#include "tree_internal.h"
#include "vspec.h"
#include "vobj.h"
#pragma pack(push, 1)
struct blk_t0 { struct _ccs_tree_s t; _ccs_tree_data_t d; ccs_float_t w[1], a[2]; };
struct blk_t1 { struct _ccs_tree_s t; _ccs_tree_data_t d; ccs_float_t w[2], a[3]; ccs_tree_t c[1]; };
struct blk_t2 { struct _ccs_tree_s t; _ccs_tree_data_t d; ccs_float_t w[3], a[4]; ccs_tree_t c[2]; };
struct blk_t1s { struct _ccs_tree_s t; _ccs_tree_data_t d; ccs_float_t w[2], a[3]; ccs_tree_t c[1]; char s[3]; };
#pragma pack(pop)
#define V_BLK1 struct blk_t0
#define V_BLK2 struct blk_t1
#define V_BLK3 struct blk_t2
#define V_BLK4 struct blk_t1s
#include "valloc.h"
#include "trees.inc"
static const double       TW[5] = {0.0, 1.0, 2.0, 0.5, 3.0};
/* the invariant of a node */
static void
inv(int k)
{
	double s = 0.0;
	v_check(TD[k].arity == AR[k] && TD[k].weights == W[k] && TD[k].areas == A[k] && TD[k].children == CH[k], "node: layout unchanged");
	for (size_t i = 0; i < AR[k]; i++) {
		ccs_tree_t c = CH[k][i];
		if (c) {
			v_check(c->data->parent == &T[k] && c->data->index == i, "node: a child knows its parent and its position");
			v_check(W[k][i] == c->data->sum_weights * c->data->bias, "node: a child weighs its subtree times its bias");
		} else
			v_check(W[k][i] == 1.0, "node: an unset child weighs one");
		s += W[k][i];
	}
	s += W[k][AR[k]];
	v_check(TD[k].sum_weights == s, "node: weight of the subtree");
	if (s > 0.0) {
		v_check(A[k][0] == 0.0 && A[k][AR[k] + 1] == 1.0, "node: sampling areas cover [0, 1]");
		for (size_t i = 0; i <= AR[k]; i++)
			v_check(A[k][i] <= A[k][i + 1] && (i == AR[k] || W[k][i] > 0.0 || A[k][i] == A[k][i + 1]), "node: sampling areas ordered, none for a null weight");
	}
}
static void
invall(void)
{
	for (int k = 0; k < NN; k++)
		inv(k);
}
//@unit tree_create cases=10 bcases=0,1,2,3,5,6,7,8,9 prop=C19,C12,C14 unwind=6 bounded="arity up to 2, a string value of 2 characters" funcs=ccs_create_tree,ccs_tree_get_value,ccs_tree_get_arity,ccs_tree_get_weight,ccs_tree_get_bias,_ccs_tree_del flags="--memory-leak-check"
void
h_tree_create(void)
{
	static const ccs_data_type_t K[5] = {CCS_DATA_TYPE_NONE, CCS_DATA_TYPE_FLOAT, CCS_DATA_TYPE_BOOL, CCS_DATA_TYPE_INACTIVE, CCS_DATA_TYPE_OBJECT};
	ccs_tree_t  t = NULL, p = NULL;
	ccs_datum_t v, r;
	ccs_float_t f;
	size_t      n = 77;
	char        s[3] = {'a', 'b', 0};
	memset(&v, 0, sizeof(v));
	if (V_CASE == 4) {
		/* sizes that do not fit in memory are refused */
		size_t a = (size_t)nd_u64();
		v_assume(a > (SIZE_MAX - sizeof(struct _ccs_tree_s) - sizeof(_ccs_tree_data_t) - 3 * sizeof(ccs_float_t)) / (3 * sizeof(ccs_float_t)));
		v_check(ccs_create_tree(a, ccs_int(1), &t) < 0, "arity too large refused");
		v_check(ccs_create_tree(1, ccs_int(1), NULL) < 0, "bad argument refused");
		v_check(ccs_create_tree(1, ccs_string(NULL), &t) < 0, "no string refused");
		V_REACH("create");
		return;
	}
	size_t a = V_CASE >= 3 ? 1 : V_CASE;
	v.type = V_CASE == 3 ? CCS_DATA_TYPE_STRING : V_CASE < 3 ? CCS_DATA_TYPE_INT : K[V_CASE - 5];
	v.flags = nd_u32();
	if (V_CASE == 3)
		v.value.s = s;
	else
		v.value.i = nd_i64();
	int ok = v.type != CCS_DATA_TYPE_OBJECT && v.type != CCS_DATA_TYPE_INACTIVE;
	V_OOM  = nd_bool();
	ccs_result_t x = ccs_create_tree(a, v, &t);
	v_check(IMPLIES(!ok, x < 0), "tree: plain values only");
	v_check(IMPLIES(ok, x == CCS_RESULT_SUCCESS || (V_OOM && x == CCS_RESULT_ERROR_OUT_OF_MEMORY)), "tree created");
	V_OOM = 0;
	if (x == CCS_RESULT_SUCCESS) {
		s[0] = 'z';
		v_check(REFS(t) == 1 && t->obj.type == CCS_OBJECT_TYPE_TREE, "tree: one reference");
		v_check(ccs_tree_get_arity(t, &n) == CCS_RESULT_SUCCESS && n == a, "tree: arity");
		v_check(ccs_tree_get_value(t, &r) == CCS_RESULT_SUCCESS && r.type == v.type && r.flags == CCS_DATUM_FLAG_DEFAULT, "tree: kind of value");
		if (V_CASE == 3)
			v_check(r.value.s != s && r.value.s[0] == 'a' && r.value.s[1] == 'b' && r.value.s[2] == 0, "tree: owns a copy of its string");
		else
			v_check(r.value.i == v.value.i, "tree: value");
		v_check(ccs_tree_get_weight(t, &f) == CCS_RESULT_SUCCESS && f == 1.0 && ccs_tree_get_bias(t, &f) == CCS_RESULT_SUCCESS && f == 1.0, "tree: weight and bias one");
		v_check(ccs_tree_get_parent(t, &p, &n) == CCS_RESULT_SUCCESS && p == NULL && t->data->sum_weights == (double)(a + 1), "tree: a root");
		for (size_t i = 0; i < a; i++)
			v_check(t->data->children[i] == NULL && t->data->weights[i] == 1.0, "tree: no child");
		v_check(t->data->areas[0] == 0.0 && t->data->areas[a + 1] == 1.0, "tree: areas");
		for (size_t i = 0; i <= a; i++)
			v_check(t->data->areas[i] < t->data->areas[i + 1], "tree: areas ordered");
		v_check(_ccs_tree_ops.obj_ops.del((ccs_object_t)t) == CCS_RESULT_SUCCESS, "deleted");
		free(t);
	}
	V_REACH("create");
}
//@unit tree_set_child unwind=6 bounded="a tree of 4 nodes" funcs=ccs_tree_set_child,_ccs_tree_update_weight prop=C19,C12
void
h_tree_set_child(void)
{
	mkall();
	invall();
	size_t i = (size_t)nd_u64();
	int    k = (int)nd_upto(2);
	T[1].obj.refcount = 4;
	if (k > 0)
		v_check(ccs_tree_set_child(&T[0], 0, &T[2]) == CCS_RESULT_SUCCESS, "child set");
	ccs_result_t x = ccs_tree_set_child(&T[0], i, &T[1]);
	v_check(IFF(x == CCS_RESULT_SUCCESS, i < 2 && !(k > 0 && i == 0)), "a free slot of the node only");
	v_check(REFS(&T[1]) == (x == CCS_RESULT_SUCCESS ? 5 : 4), "child held");
	if (x == CCS_RESULT_SUCCESS) {
		v_check(CH[0][i] == &T[1] && TD[1].parent == &T[0] && TD[1].index == i, "child attached");
		v_check(ccs_tree_set_child(&T[0], 1 - i, &T[1]) < 0 && ccs_tree_set_child(&T[2], 0, &T[1]) < 0 && REFS(&T[1]) == 5, "an attached node cannot be attached again");
	} else
		v_check(TD[1].parent == NULL && TD[1].index == 0, "refused: child unchanged");
	v_check(ccs_tree_set_child(NULL, 0, &T[3]) < 0 && ccs_tree_set_child(&T[0], 1, NULL) < 0, "bad arguments refused");
	invall();
	V_REACH("set child");
}
//@unit tree_cycle cases=3 unwind=6 bounded="chains of up to 3 nodes" funcs=ccs_tree_set_child
void
h_tree_cycle(void)
{
	chain(V_CASE);
	/* the root below itself or one of its descendants */
	size_t   free_slot = V_CASE == 1 ? 1 : 0;
	unsigned refs = REFS(&T[0]);
	v_check(ccs_tree_set_child(&T[V_CASE], free_slot, &T[0]) < 0, "a node cannot be its own descendant");
	v_check(TD[0].parent == NULL && REFS(&T[0]) == (int)refs && CH[V_CASE][free_slot] == NULL, "refused: nothing changes");
	invall();
	V_REACH("cycle");
}
/* weights and biases over a chain of 3 nodes */
//@unit tree_weights cases=6 unwind=6 bounded="a chain of 4 nodes, weights and biases 0, 1/2, 1, 2, 3" funcs=ccs_tree_set_weight,ccs_tree_set_bias,_ccs_tree_update_weight,_ccs_tree_update_bias,_ccs_distribution_roulette_normalize_areas
void
h_tree_weights(void)
{
	int    n = V_CASE / 2;
	double a = TW[nd_upto(4)], b = TW[nd_upto(4)], f = 77.0;
	chain(3);
	v_check(ccs_tree_set_weight(&T[n], a) == CCS_RESULT_SUCCESS, "weight set");
	if (V_CASE % 2) {
		v_check(ccs_tree_set_bias(&T[n + 1], b) == CCS_RESULT_SUCCESS && ccs_tree_get_bias(&T[n + 1], &f) == CCS_RESULT_SUCCESS && f == b, "bias set");
		v_check(ccs_tree_get_weight(&T[n], &f) == CCS_RESULT_SUCCESS && f == a, "weight unchanged");
	} else {
		v_check(ccs_tree_set_weight(&T[n + 1], b) == CCS_RESULT_SUCCESS && ccs_tree_get_weight(&T[n + 1], &f) == CCS_RESULT_SUCCESS && f == b, "weight set");
		v_check(ccs_tree_get_weight(&T[n], &f) == CCS_RESULT_SUCCESS && f == a, "weight of the other node unchanged");
	}
	invall();
	double w = nd_f64();
	v_assume(w < 0.0);
	v_check(ccs_tree_set_weight(&T[n], w) < 0 && ccs_tree_set_bias(&T[n], w) < 0 && ccs_tree_set_weight(NULL, 1.0) < 0 && ccs_tree_set_bias(NULL, 1.0) < 0, "negative weight or bias refused");
	v_check(W[n][AR[n]] == a, "refused: unchanged");
	V_REACH("weights");
}
//@unit tree_attach_weight unwind=6 bounded="a tree of 4 nodes, weights and biases 0, 1/2, 1, 2, 3" funcs=ccs_tree_set_child,_ccs_tree_update_weight,_ccs_tree_update_bias
void
h_tree_attach_weight(void)
{
	mkall();
	double a = TW[nd_upto(4)], b = TW[nd_upto(4)];
	v_check(ccs_tree_set_child(&T[0], 0, &T[1]) == CCS_RESULT_SUCCESS, "child set");
	v_check(ccs_tree_set_weight(&T[2], a) == CCS_RESULT_SUCCESS && ccs_tree_set_bias(&T[2], b) == CCS_RESULT_SUCCESS, "weights set before attaching");
	v_check(ccs_tree_set_child(&T[1], 1, &T[2]) == CCS_RESULT_SUCCESS, "subtree attached");
	invall();
	V_REACH("attach");
}
//@unit tree_del unwind=6 bounded="a node of arity 2" prop=C19,C12 funcs=_ccs_tree_del
void
h_tree_del(void)
{
	mkall();
	int both = nd_bool();
	T[1].obj.refcount = T[2].obj.refcount = 2;
	v_check(ccs_tree_set_child(&T[0], 1, &T[1]) == CCS_RESULT_SUCCESS, "child set");
	if (both)
		v_check(ccs_tree_set_child(&T[0], 0, &T[2]) == CCS_RESULT_SUCCESS, "child set");
	v_check(_ccs_tree_ops.obj_ops.del((ccs_object_t)&T[0]) == CCS_RESULT_SUCCESS, "deleted");
	v_check(REFS(&T[1]) == 2 && REFS(&T[2]) == 2, "children released");
	v_check(TD[1].parent == NULL && TD[2].parent == NULL && TD[1].index == 0 && TD[2].index == 0, "children are roots again");
	V_REACH("del");
}
//@unit tree_accessors prop=C14,C19 unwind=6 bounded="a chain of 4 nodes, arrays of up to 4" funcs=ccs_tree_get_child,ccs_tree_get_children,ccs_tree_get_parent,ccs_tree_get_position,ccs_tree_get_values
void
h_tree_accessors(void)
{
	chain(3);
	ccs_tree_t   c[4], p = NULL;
	size_t       pos[4], n = 77, i = (size_t)nd_u64();
	ccs_datum_t  v[5];
	ccs_result_t x;
	for (int k = 0; k < 4; k++) {
		c[k]   = &T[3];
		pos[k] = 99;
		v[k]   = ccs_int(7);
	}
	x = ccs_tree_get_child(&T[0], i, &p);
	v_check(IFF(x == CCS_RESULT_SUCCESS, i < 2) && IMPLIES(i < 2, p == CH[0][i]), "child by index");
	v_check(ccs_tree_get_child(&T[0], 0, NULL) < 0 && ccs_tree_get_child(NULL, 0, &p) < 0, "bad arguments refused");
	size_t m = nd_upto(4);
	int    want = nd_bool();
	x = ccs_tree_get_children(&T[0], m, m ? c : NULL, want ? &n : NULL);
	v_check(IFF(x == CCS_RESULT_SUCCESS, m == 0 ? want : m >= 2), "children: array large enough or count asked");
	if (x == CCS_RESULT_SUCCESS) {
		v_check(!want || n == 2, "children: count");
		for (size_t k = 0; k < 4; k++)
			v_check(c[k] == (k >= m ? &T[3] : k < 2 ? CH[0][k] : NULL), "children: in order, then none");
	} else
		v_check(c[0] == &T[3] && c[1] == &T[3], "children: refused, nothing written");
	n = 77;
	v_check(ccs_tree_get_parent(&T[2], &p, &n) == CCS_RESULT_SUCCESS && p == &T[1] && n == 0, "parent and index");
	v_check(ccs_tree_get_parent(&T[1], &p, &n) == CCS_RESULT_SUCCESS && p == &T[0] && n == 1, "parent and index");
	v_check(ccs_tree_get_parent(&T[0], &p, NULL) == CCS_RESULT_SUCCESS && p == NULL && ccs_tree_get_parent(&T[0], NULL, &n) < 0, "root has no parent");
	/* position of node k: depth k, indices 1, 0, 0 */
	int k = (int)nd_upto(3);
	m = nd_upto(4);
	x = ccs_tree_get_position(&T[k], m, m ? pos : NULL, want ? &n : NULL);
	v_check(IFF(x == CCS_RESULT_SUCCESS, m == 0 ? want : m >= (size_t)k), "position: array large enough or size asked");
	if (x == CCS_RESULT_SUCCESS) {
		v_check(!want || n == (size_t)k, "position: depth");
		for (size_t j = 0; j < 4; j++)
			v_check(pos[j] == (j >= m ? 99 : j < (size_t)k ? (j == 0 ? 1 : 0) : 0), "position: indices from the root, then zero");
	} else
		v_check(pos[0] == 99, "position: refused, nothing written");
	m = nd_upto(4);
	x = ccs_tree_get_values(&T[k], m, m ? v : NULL, want ? &n : NULL);
	v_check(IFF(x == CCS_RESULT_SUCCESS, m == 0 ? want : m >= (size_t)k + 1), "values: array large enough or count asked");
	if (x == CCS_RESULT_SUCCESS) {
		v_check(!want || n == (size_t)k + 1, "values: depth plus one");
		for (size_t j = 0; j < m; j++)
			v_check(j <= (size_t)k ? v[j].type == CCS_DATA_TYPE_INT && v[j].value.i == (ccs_int_t)(100 + j) : is_none(&v[j]), "values: from the root down, then none");
	} else
		v_check(v[0].type == CCS_DATA_TYPE_INT && v[0].value.i == 7, "values: refused, nothing written");
	V_REACH("accessors");
}
//@unit tree_positions prop=C19,C20,C14 unwind=6 bounded="a chain of 4 nodes, positions of up to 4 indices" funcs=ccs_tree_position_is_valid,ccs_tree_get_node_at_position,ccs_tree_get_values_at_position
void
h_tree_positions(void)
{
	chain(3);
	size_t      pos[4], n = nd_upto(4);
	ccs_tree_t  t = NULL;
	ccs_bool_t  b = 77;
	ccs_datum_t v[5];
	for (int k = 0; k < 4; k++)
		pos[k] = (size_t)nd_u64();
	int ok = leads(n, pos);
	v_check(ccs_tree_position_is_valid(&T[0], n, n ? pos : NULL, &b) == CCS_RESULT_SUCCESS && b == (reach(n, pos) ? CCS_TRUE : CCS_FALSE), "valid exactly when every index is a slot of an existing node");
	ccs_result_t x = ccs_tree_get_node_at_position(&T[0], n, n ? pos : NULL, &t);
	v_check(IFF(x == CCS_RESULT_SUCCESS, ok) && IMPLIES(ok, t == &T[n < 4 ? n : 0]), "node at a position");
	size_t m = nd_upto(5);
	for (int k = 0; k < 5; k++)
		v[k] = ccs_int(7);
	x = ccs_tree_get_values_at_position(&T[0], n, n ? pos : NULL, m, m ? v : NULL);
	v_check(IFF(x == CCS_RESULT_SUCCESS, ok && m >= n + 1), "values at a position: room for every node of the path");
	if (x == CCS_RESULT_SUCCESS)
		for (size_t k = 0; k < 5; k++)
			v_check(k >= m ? v[k].value.i == 7 : k <= n ? v[k].type == CCS_DATA_TYPE_INT && v[k].value.i == (ccs_int_t)(100 + k) : is_none(&v[k]), "values along the path, then none");
	v_check(ccs_tree_position_is_valid(&T[0], 1, NULL, &b) < 0 && ccs_tree_position_is_valid(&T[0], 0, NULL, NULL) < 0 && ccs_tree_get_node_at_position(&T[0], 0, NULL, NULL) < 0 && ccs_tree_get_node_at_position(NULL, 0, NULL, &t) < 0, "bad arguments refused");
	V_REACH("positions");
}
//@unit tree_sample unwind=8 bounded="nodes of arity up to 2, two samples" funcs=ccs_tree_sample,ccs_tree_samples,_ccs_tree_samples,_ccs_dichotomic_search
void
h_tree_sample(void)
{
	static _ccs_object_template_t rng;
	rng.obj.type = CCS_OBJECT_TYPE_RNG;
	rng.data     = &rng;
	size_t i[3] = {77, 77, 77};
	mkall();
	/* any areas that meet the invariant */
	double a = nd_f64(), b = nd_f64();
	v_assume(a >= 0.0 && a <= b && b <= 1.0);
	A[0][1] = a;
	A[0][2] = b;
	int zero = nd_bool();
	if (zero)
		TD[0].sum_weights = 0.0;
	ccs_result_t x = ccs_tree_sample(&T[0], (ccs_rng_t)&rng, &i[0]);
	v_check(IFF(x == CCS_RESULT_SUCCESS, !zero), "a tree without weight cannot be sampled");
	if (x == CCS_RESULT_SUCCESS) {
		v_check(i[0] <= 2 && i[1] == 77, "sample: a child or the node itself");
		v_check(A[0][i[0]] <= RND && RND < A[0][i[0] + 1], "sample: the area drawn");
		v_check(ccs_tree_samples(&T[0], (ccs_rng_t)&rng, 2, i) == CCS_RESULT_SUCCESS && i[0] <= 2 && i[1] <= 2 && i[2] == 77, "samples: as many as asked");
		v_check(A[0][i[1]] <= RND && RND < A[0][i[1] + 1], "samples: the area drawn");
	}
	v_check(ccs_tree_samples(&T[0], (ccs_rng_t)&rng, 0, NULL) == CCS_RESULT_SUCCESS || zero, "no sample asked");
	v_check(ccs_tree_sample(&T[0], (ccs_rng_t)&rng, NULL) < 0 && ccs_tree_sample(&T[0], NULL, i) < 0 && ccs_tree_sample(NULL, (ccs_rng_t)&rng, i) < 0 && ccs_tree_samples(&T[0], (ccs_rng_t)&rng, 1, NULL) < 0, "bad arguments refused");
	V_REACH("sample");
}
