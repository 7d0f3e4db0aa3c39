/* Contracts for src/tree_space*.c and src/tree_configuration.c, over the code
 * of src/tree.c. */
//@property C20
//@assume gsl_rng_uniform returns a number of [0, 1) (GSL documentation)
//@assume the get_child callback of a dynamic tree space returns a new root node or an error (documented contract of the vector)
#include "vcommon.h"
#include "tree_space_internal.h"
#include "tree_configuration_internal.h"
#include "vspec.h"
#include "vhash.h"
#include "vobj.h"
#pragma pack(push, 1)
struct blk_c0 { struct _ccs_tree_configuration_s c; _ccs_tree_configuration_data_t d; };
struct blk_c1 { struct _ccs_tree_configuration_s c; _ccs_tree_configuration_data_t d; size_t p[1]; };
struct blk_c2 { struct _ccs_tree_configuration_s c; _ccs_tree_configuration_data_t d; size_t p[2]; };
struct v_static_data { _ccs_tree_space_common_data_t c; };
struct v_dynamic_data { _ccs_tree_space_common_data_t c; ccs_dynamic_tree_space_vector_t v; void *u; };
struct blk_ss { struct _ccs_tree_space_s s; struct v_static_data d; char n[3]; };
struct blk_sd { struct _ccs_tree_space_s s; struct v_dynamic_data d; char n[3]; };
#pragma pack(pop)
#define V_BLK1 struct blk_c0
#define V_BLK2 struct blk_c1
#define V_BLK3 struct blk_c2
#define V_BLK4 struct blk_ss
#define V_BLK5 struct blk_sd
#include "valloc.h"
#ifdef V_CBMC
#undef realloc
static void *
v_growto(void *p, size_t n)
{
	v_assume(p == NULL);
	return malloc(n);
}
#define realloc v_growto
#endif
/* the draws of the sampling units */
static double v_draw(void);
#define V_DRAW v_draw()
#include "trees.inc"
/* configurations made by sampling, by contract (the code is under contract in
 * tconf_create) */
static ccs_result_t v_create(ccs_tree_space_t, size_t, const size_t *, ccs_tree_configuration_t *);
#define ccs_create_tree_configuration v_create
#include "tree_space.c"
#undef ccs_create_tree_configuration
#include "tree_space_static.c"
#include "tree_space_dynamic.c"
#include "tree_configuration.c"
#undef realloc
static _ccs_object_template_t RNG;
static int                    RNGERR;
ccs_result_t
ccs_create_rng(ccs_rng_t *r)
{
	if (RNGERR)
		return CCS_RESULT_ERROR_OUT_OF_MEMORY;
	mk_shell(&RNG, CCS_OBJECT_TYPE_RNG, NULL, &RNG);
	*r = (ccs_rng_t)&RNG;
	return CCS_RESULT_SUCCESS;
}
/* spaces over the chain 0 -> [1] 1 -> [0] 2 -> [0] 3 */
static struct _ccs_tree_space_s S[2];
static _ccs_tree_space_static_data_t  SS;
static _ccs_tree_space_dynamic_data_t SD;
static int                      GOT, CBERR, DELS;
static ccs_result_t
s_child(ccs_tree_space_t s, ccs_tree_t parent, size_t index, ccs_tree_t *child)
{
	v_check(s == &S[1] && (parent == &T[2] || parent == &T[1] || parent == &T[0]) && index < parent->data->arity && parent->data->children[index] == NULL, "dynamic: asked only for a missing child of the tree");
	GOT++;
	if (CBERR)
		return CCS_RESULT_ERROR_EXTERNAL;
	mknode(3);
	*child = &T[3];
	return CCS_RESULT_SUCCESS;
}
static ccs_result_t
s_del(ccs_tree_space_t s)
{
	(void)s;
	DELS++;
	return CCS_RESULT_SUCCESS;
}
static void
spaces(int n)
{
	chain(n);
	mk_shell(&RNG, CCS_OBJECT_TYPE_RNG, NULL, &RNG);
	mk_shell(&S[0], CCS_OBJECT_TYPE_TREE_SPACE, &_ccs_tree_space_static_ops, &SS);
	mk_shell(&S[1], CCS_OBJECT_TYPE_TREE_SPACE, &_ccs_tree_space_dynamic_ops, &SD);
	SS.common_data.type = CCS_TREE_SPACE_TYPE_STATIC;
	SS.common_data.name = "n";
	SS.common_data.rng  = (ccs_rng_t)&RNG;
	SS.common_data.tree = &T[0];
	SD.common_data      = SS.common_data;
	SD.common_data.type = CCS_TREE_SPACE_TYPE_DYNAMIC;
	SD.vector.del       = &s_del;
	SD.vector.get_child = &s_child;
	SD.tree_space_data  = &SS;
	GOT = CBERR = 0;
}
#define V_INT(d, n) ((d).type == CCS_DATA_TYPE_INT && (d).value.i == (ccs_int_t)(n))
//@unit tspace_static unwind=6 bounded="a chain of 4 nodes, positions of up to 4 indices" funcs=ccs_tree_space_check_position,ccs_tree_space_get_node_at_position,ccs_tree_space_get_values_at_position,_ccs_tree_space_static_check_position,_ccs_tree_space_static_get_node_at_position,_ccs_tree_space_static_get_values_at_position
void
h_tspace_static(void)
{
	size_t      pos[4], n = nd_upto(4), m = nd_upto(5);
	ccs_tree_t  t = NULL;
	ccs_bool_t  b = 77;
	ccs_datum_t v[5];
	spaces(3);
	for (int k = 0; k < 4; k++)
		pos[k] = (size_t)nd_u64();
	for (int k = 0; k < 5; k++)
		v[k] = ccs_int(7);
	int ok = leads(n, pos);
	v_check(ccs_tree_space_check_position(&S[0], n, n ? pos : NULL, &b) == CCS_RESULT_SUCCESS && b == (reach(n, pos) ? CCS_TRUE : CCS_FALSE), "static: valid exactly when every index is a slot of an existing node");
	ccs_result_t x = ccs_tree_space_get_node_at_position(&S[0], n, n ? pos : NULL, &t);
	v_check(IFF(x == CCS_RESULT_SUCCESS, ok) && IMPLIES(ok, t == &T[n < 4 ? n : 0]), "static: node at a position");
	x = ccs_tree_space_get_values_at_position(&S[0], n, n ? pos : NULL, m, m ? v : NULL);
	v_check(IFF(x == CCS_RESULT_SUCCESS, ok && m >= n + 1), "static: values at a position");
	if (x == CCS_RESULT_SUCCESS)
		for (size_t k = 0; k < 5; k++)
			v_check(k >= m ? V_INT(v[k], 7) : k <= n ? V_INT(v[k], 100 + k) : is_none(&v[k]), "static: values along the path, then none");
	v_check(ccs_tree_space_check_position(&S[0], 1, NULL, &b) < 0 && ccs_tree_space_check_position(NULL, 0, NULL, &b) < 0 && ccs_tree_space_check_position(&S[0], 0, NULL, NULL) < 0, "bad arguments refused");
	V_REACH("static");
}
/* a chain of 3; the callback supplies a missing child */
//@unit tspace_dynamic cases=13 prop=C20,C12 unwind=6 bounded="a chain of 3 nodes grown by one, positions of up to 3 indices, indices in range or equal to the arity" funcs=_ccs_tree_space_dynamic_check_position,_ccs_tree_space_dynamic_get_node_at_position,_ccs_tree_space_dynamic_get_values_at_position,_ccs_tree_space_tree_get_child
void
h_tspace_dynamic(void)
{
	size_t       pos[3];
	ccs_tree_t   t = NULL;
	ccs_bool_t   b = 77;
	ccs_datum_t  v[5];
	ccs_result_t x;
	spaces(2);
	mknode(3);
	CBERR = nd_bool();
	for (int k = 0; k < 5; k++)
		v[k] = ccs_int(7);
	/* 1, 0, 0 is the missing child of node 2; or an index out of range on the way */
	int    out = V_CASE % 4, op = V_CASE / 4;
	size_t far = out == 3 ? 1 : 2; /* the node's arity */
	pos[0] = out == 1 ? far : 1;
	pos[1] = out == 2 ? far : 0;
	pos[2] = out == 3 ? far : 0;
	if (op == 0) {
		x = ccs_tree_space_check_position(&S[1], 3, pos, &b);
		v_check(out ? x == CCS_RESULT_SUCCESS && b == CCS_FALSE && GOT == 0 : CBERR ? x < 0 : x == CCS_RESULT_SUCCESS && b == CCS_TRUE && GOT == 1, "dynamic: valid exactly when it leads to a node, grown if need be");
	} else if (op == 1) {
		x = ccs_tree_space_get_node_at_position(&S[1], 3, pos, &t);
		v_check(out ? x < 0 && GOT == 0 : CBERR ? x < 0 : x == CCS_RESULT_SUCCESS && t == &T[3] && GOT == 1, "dynamic: node at a position, grown if need be");
	} else if (op == 2) {
		size_t m = nd_upto(5);
		x = ccs_tree_space_get_values_at_position(&S[1], 3, pos, m, m ? v : NULL);
		v_check(out || CBERR || m < 4 ? x < 0 : x == CCS_RESULT_SUCCESS, "dynamic: values at a position");
		if (x == CCS_RESULT_SUCCESS)
			for (size_t k = 0; k < 5; k++)
				v_check(k >= m ? V_INT(v[k], 7) : k <= 3 ? V_INT(v[k], 100 + k) : is_none(&v[k]), "dynamic: values along the path, then none");
		else if (m < 4)
			v_check(GOT == 0 && V_INT(v[0], 7), "dynamic: short array refused, nothing written");
	} else {
		/* known nodes are not asked for again */
		v_check(ccs_tree_space_check_position(&S[1], 2, pos, &b) == CCS_RESULT_SUCCESS && GOT == 0 && b == CCS_TRUE, "dynamic: known positions");
		v_check(ccs_tree_space_get_node_at_position(&S[1], 0, NULL, &t) == CCS_RESULT_SUCCESS && t == &T[0], "dynamic: the root");
		v_check(ccs_dynamic_tree_space_get_tree_space_data(&S[1], (void **)&t) == CCS_RESULT_SUCCESS && (void *)t == (void *)&SS && ccs_dynamic_tree_space_get_tree_space_data(&S[0], (void **)&t) < 0, "dynamic: user data");
		V_REACH("dynamic");
		return;
	}
	if (GOT && !CBERR)
		v_check(CH[2][0] == &T[3] && TD[3].parent == &T[2] && TD[3].index == 0 && REFS(&T[3]) == 1, "dynamic: the new child belongs to the tree");
	if (CBERR || !GOT)
		v_check(CH[2][0] == NULL, "dynamic: nothing attached");
	V_REACH("dynamic");
}
//@unit tspace_create cases=2 prop=C20,C12,C14 unwind=6 bounded="a name of 2 characters" funcs=ccs_create_static_tree_space,ccs_create_dynamic_tree_space,_ccs_tree_space_static_del,_ccs_tree_space_dynamic_del,ccs_tree_space_get_type,ccs_tree_space_get_name,ccs_tree_space_get_rng,ccs_tree_space_set_rng,ccs_tree_space_get_tree flags="--memory-leak-check"
void
h_tspace_create(void)
{
	static _ccs_object_template_t   rng2;
	ccs_tree_space_t                s = NULL;
	ccs_dynamic_tree_space_vector_t vec;
	ccs_tree_space_type_t           ty;
	ccs_rng_t                       r = NULL;
	ccs_tree_t                      t = NULL;
	const char                     *nm = NULL;
	char                            name[3] = {'a', 'b', 0};
	ccs_result_t                    x;
	memset(&vec, 0, sizeof(vec));
	vec.del       = &s_del;
	vec.get_child = &s_child;
	mknode(0);
	T[0].obj.refcount = 3;
	V_OOM  = nd_bool();
	RNGERR = nd_bool();
	if (V_CASE)
		x = ccs_create_dynamic_tree_space(name, &T[0], &vec, &rng2, &s);
	else
		x = ccs_create_static_tree_space(name, &T[0], &s);
	v_check(x == CCS_RESULT_SUCCESS || ((V_OOM || RNGERR) && x == CCS_RESULT_ERROR_OUT_OF_MEMORY), "space created");
	v_check(REFS(&T[0]) == (x == CCS_RESULT_SUCCESS ? 4 : 3), "space: holds its tree");
	V_OOM = 0;
	if (x == CCS_RESULT_SUCCESS) {
		name[0] = 'z';
		v_check(REFS(s) == 1 && REFS(&RNG) == 1, "space: one reference");
		v_check(ccs_tree_space_get_type(s, &ty) == CCS_RESULT_SUCCESS && ty == (V_CASE ? CCS_TREE_SPACE_TYPE_DYNAMIC : CCS_TREE_SPACE_TYPE_STATIC), "space: type");
		v_check(ccs_tree_space_get_name(s, &nm) == CCS_RESULT_SUCCESS && nm != name && nm[0] == 'a' && nm[1] == 'b' && nm[2] == 0, "space: owns a copy of its name");
		v_check(ccs_tree_space_get_tree(s, &t) == CCS_RESULT_SUCCESS && t == &T[0] && ccs_tree_space_get_rng(s, &r) == CCS_RESULT_SUCCESS && r == (ccs_rng_t)&RNG, "space: tree and generator");
		v_check(ccs_tree_space_get_tree(s, NULL) < 0 && ccs_tree_space_get_rng(s, NULL) < 0 && ccs_tree_space_get_name(s, NULL) < 0 && ccs_tree_space_get_type(s, NULL) < 0 && ccs_tree_space_set_rng(s, NULL) < 0, "bad arguments refused");
		mk_shell(&rng2, CCS_OBJECT_TYPE_RNG, NULL, &rng2);
		RNG.obj.refcount = 2;
		v_check(ccs_tree_space_set_rng(s, (ccs_rng_t)&rng2) == CCS_RESULT_SUCCESS && REFS(&RNG) == 1 && REFS(&rng2) == 2, "space: generator replaced");
		DELS = 0;
		v_check((V_CASE ? _ccs_tree_space_dynamic_ops.obj_ops.del : _ccs_tree_space_static_ops.obj_ops.del)((ccs_object_t)s) == CCS_RESULT_SUCCESS, "deleted");
		v_check(REFS(&T[0]) == 3 && REFS(&rng2) == 1 && DELS == V_CASE, "space: references returned");
		free(s);
	} else if (!RNGERR)
		v_check(s == NULL, "refused: nothing returned");
	V_REACH("create");
}
static struct _ccs_tree_configuration_s C[2];
static _ccs_tree_configuration_data_t   CD[2];
static size_t                           CP[2][3];
static void
mkconf(int k, ccs_tree_space_t s, size_t n)
{
	mk_shell(&C[k], CCS_OBJECT_TYPE_TREE_CONFIGURATION, &_tree_configuration_ops, &CD[k]);
	CD[k].tree_space    = s;
	CD[k].position_size = n;
	CD[k].position      = CP[k];
	for (int i = 0; i < 3; i++)
		CP[k][i] = (size_t)nd_u64();
}
//@unit tconf_create cases=3 prop=C20,C12,C14 unwind=5 bounded="positions of up to 2 indices" funcs=ccs_create_tree_configuration,_ccs_tree_configuration_del,ccs_tree_configuration_get_tree_space flags="--memory-leak-check"
void
h_tconf_create(void)
{
	ccs_tree_configuration_t c = NULL;
	ccs_tree_space_t         s = NULL;
	size_t                   pos[2], old[2];
	spaces(0);
	S[0].obj.refcount = 3;
	for (int k = 0; k < 2; k++)
		old[k] = pos[k] = (size_t)nd_u64();
	V_OOM = nd_bool();
	ccs_result_t x = ccs_create_tree_configuration(&S[0], V_CASE, V_CASE ? pos : NULL, &c);
	v_check(x == CCS_RESULT_SUCCESS || (V_OOM && x == CCS_RESULT_ERROR_OUT_OF_MEMORY), "configuration created");
	v_check(REFS(&S[0]) == (x == CCS_RESULT_SUCCESS ? 4 : 3), "configuration: holds its space");
	V_OOM = 0;
	if (x == CCS_RESULT_SUCCESS) {
		pos[0] ^= 1; /* the caller's array may change */
		v_check(REFS(c) == 1 && ccs_tree_configuration_get_tree_space(c, &s) == CCS_RESULT_SUCCESS && s == &S[0], "configuration: its space");
		v_check(c->data->position_size == V_CASE, "configuration: position size");
		for (int k = 0; k < V_CASE; k++)
			v_check(c->data->position[k] == old[k], "configuration: owns a copy of its position");
		v_check(_tree_configuration_ops.obj_ops.del((ccs_object_t)c) == CCS_RESULT_SUCCESS && REFS(&S[0]) == 3, "configuration: reference returned");
		free(c);
	}
	v_check(ccs_create_tree_configuration(NULL, 0, NULL, &c) < 0 && ccs_create_tree_configuration(&S[0], 0, NULL, NULL) < 0 && ccs_create_tree_configuration(&S[0], 1, NULL, &c) < 0, "bad arguments refused");
	V_REACH("create");
}
//@unit tconf_get cases=4 prop=C20,C14 unwind=6 bounded="positions of up to 3 indices, a chain of 4 nodes" funcs=ccs_tree_configuration_get_position,ccs_tree_configuration_get_values,ccs_tree_configuration_get_node,ccs_tree_configuration_check,ccs_tree_space_check_configuration
void
h_tconf_get(void)
{
	spaces(3);
	size_t      n = V_CASE, m = nd_upto(4), got = 77, pos[4] = {99, 99, 99, 99};
	ccs_datum_t v[5];
	ccs_tree_t  t = NULL;
	ccs_bool_t  b = 77;
	int         want = nd_bool();
	for (int k = 0; k < 5; k++)
		v[k] = ccs_int(7);
	mkconf(0, &S[0], n);
	ccs_result_t x = ccs_tree_configuration_get_position(&C[0], m, m ? pos : NULL, want ? &got : NULL);
	v_check(IFF(x == CCS_RESULT_SUCCESS, m == 0 ? want : m >= n), "position: array large enough or size asked");
	if (x == CCS_RESULT_SUCCESS) {
		v_check(!want || got == n, "position: size");
		for (size_t k = 0; k < 4; k++)
			v_check(pos[k] == (k >= m ? 99 : k < n ? CP[0][k < 3 ? k : 0] : 0), "position: as created, then zero");
	} else
		v_check(pos[0] == 99, "position: refused, nothing written");
	int ok = leads(n, CP[0]);
	v_check(ccs_tree_configuration_check(&C[0], &b) == CCS_RESULT_SUCCESS && b == (reach(n, CP[0]) ? CCS_TRUE : CCS_FALSE), "check: valid exactly when the space accepts the position");
	b = 77;
	v_check(ccs_tree_space_check_configuration(&S[0], &C[0], &b) == CCS_RESULT_SUCCESS && b == (reach(n, CP[0]) ? CCS_TRUE : CCS_FALSE), "space check: same answer");
	v_check(ccs_tree_space_check_configuration(&S[1], &C[0], &b) < 0, "another space's configuration refused");
	x = ccs_tree_configuration_get_node(&C[0], &t);
	v_check(IFF(x == CCS_RESULT_SUCCESS, ok) && IMPLIES(ok, t == &T[n]), "node: at its position");
	m = nd_upto(5);
	x = ccs_tree_configuration_get_values(&C[0], m, m ? v : NULL, want ? &got : NULL);
	v_check(IFF(x == CCS_RESULT_SUCCESS, m == 0 ? want : ok && m >= n + 1), "values: array large enough or count asked");
	if (x == CCS_RESULT_SUCCESS) {
		v_check(!want || got == n + 1, "values: count");
		for (size_t k = 0; k < 5; k++)
			v_check(k >= m ? V_INT(v[k], 7) : k <= n ? V_INT(v[k], 100 + k) : is_none(&v[k]), "values along the path, then none");
	}
	v_check(ccs_tree_configuration_get_position(NULL, 0, NULL, &got) < 0 && ccs_tree_configuration_get_position(&C[0], 1, NULL, &got) < 0 && ccs_tree_configuration_check(&C[0], NULL) < 0 && ccs_tree_configuration_get_node(&C[0], NULL) < 0, "bad arguments refused");
	V_REACH("get");
}
//@unit tconf_cmp prop=C20,C02 unwind=6 bounded="positions of up to 3 indices" funcs=ccs_tree_configuration_cmp,ccs_tree_configuration_hash
void
h_tconf_cmp(void)
{
	spaces(0);
	size_t     n = nd_upto(3), m = nd_upto(3);
	int        same = nd_bool(), c1 = 77, c2 = 77, eq = 1;
	ccs_hash_t h1, h2;
	mkconf(0, &S[0], n);
	mkconf(1, same ? &S[0] : &S[1], m);
	eq = same && n == m;
	for (size_t k = 0; k < 3; k++)
		if (k < n && k < m && CP[0][k] != CP[1][k])
			eq = 0;
	v_check(ccs_tree_configuration_cmp(&C[0], &C[1], &c1) == CCS_RESULT_SUCCESS && IFF(c1 == 0, eq), "equal exactly when space and position are");
	v_check(ccs_tree_configuration_cmp(&C[1], &C[0], &c2) == CCS_RESULT_SUCCESS && c2 == -c1, "comparison is antisymmetric");
	v_check(ccs_tree_configuration_cmp(&C[0], &C[0], &c2) == CCS_RESULT_SUCCESS && c2 == 0, "equal to itself");
	v_check(ccs_tree_configuration_hash(&C[0], &h1) == CCS_RESULT_SUCCESS && ccs_tree_configuration_hash(&C[1], &h2) == CCS_RESULT_SUCCESS && IMPLIES(eq, h1 == h2), "equal configurations hash alike");
	v_check(ccs_tree_configuration_cmp(&C[0], NULL, &c1) < 0 && ccs_tree_configuration_cmp(&C[0], &C[1], NULL) < 0 && ccs_tree_configuration_hash(NULL, &h1) < 0 && ccs_tree_configuration_hash(&C[0], NULL) < 0, "bad arguments refused");
	V_REACH("cmp");
}
/* sampling walks down from the root: each path of the tree, one after another */
#define NPATH 6
static const double DRAWS[NPATH][3] = {{0.1}, {0.9}, {0.5, 0.5}, {0.5, 0.9}, {0.5, 0.1, 0.2}, {0.5, 0.1, 0.7}};
static const size_t PATHN[NPATH]    = {1, 0, 2, 1, 3, 2};
static const size_t PATH[NPATH][3]  = {{0}, {0}, {1, 1}, {1}, {1, 0, 0}, {1, 0}};
static int          CUR, DRAWN, CREATED, CREATEFAIL;
static double
v_draw(void)
{
	v_check(DRAWN < 3, "at most one draw per node of the path");
	return DRAWS[CUR][DRAWN++];
}
static _ccs_object_template_t MADE[2];
static ccs_result_t
v_create(ccs_tree_space_t s, size_t n, const size_t *pos, ccs_tree_configuration_t *c)
{
	v_check(s == &S[0] && n == PATHN[CUR] && (n == 0 || pos != NULL), "sample: a configuration of the space at the path drawn");
	for (size_t k = 0; k < n; k++)
		v_check(pos[k] == PATH[CUR][k], "sample: the path drawn");
	if (CREATEFAIL && CREATED == 1)
		return CCS_RESULT_ERROR_OUT_OF_MEMORY;
	mk_shell(&MADE[CREATED], CCS_OBJECT_TYPE_TREE_CONFIGURATION, NULL, &CUR);
	*c = (ccs_tree_configuration_t)&MADE[CREATED];
	CREATED++;
	CUR   = (CUR + 1) % NPATH;
	DRAWN = 0;
	return CCS_RESULT_SUCCESS;
}
//@unit tspace_sample cases=6 unwind=8 bounded="a chain of 3 nodes, every path, 2 samples" prop=C20,C12 funcs=ccs_tree_space_sample,ccs_tree_space_samples,_ccs_tree_space_samples flags="--memory-leak-check"
void
h_tspace_sample(void)
{
	ccs_tree_configuration_t c[3] = {NULL, NULL, NULL};
	spaces(2);
	CUR        = V_CASE;
	CREATEFAIL = nd_bool();
	V_OOM      = nd_bool();
	ccs_result_t x = ccs_tree_space_samples(&S[0], 2, c);
	v_check(IMPLIES(x == CCS_RESULT_SUCCESS, !CREATEFAIL && CREATED == 2 && c[0] == (ccs_tree_configuration_t)&MADE[0] && c[1] == (ccs_tree_configuration_t)&MADE[1] && c[2] == NULL), "samples: as many as asked, in order");
	v_check(x == CCS_RESULT_SUCCESS || ((CREATEFAIL || V_OOM) && x == CCS_RESULT_ERROR_OUT_OF_MEMORY), "samples: taken");
	if (x != CCS_RESULT_SUCCESS)
		v_check(CREATED == 0 || REFS(&MADE[0]) == 0, "samples: none kept on failure");
	V_OOM = 0;
	CUR   = 0;
	DRAWN = 0;
	CREATED = CREATEFAIL = 0;
	v_check(ccs_tree_space_sample(&S[0], &c[0]) == CCS_RESULT_SUCCESS && CREATED == 1, "one sample");
	TD[0].sum_weights = 0.0;
	v_check(ccs_tree_space_sample(&S[0], &c[0]) == CCS_RESULT_ERROR_INVALID_DISTRIBUTION && CREATED == 1, "a tree without weight cannot be sampled");
	v_check(ccs_tree_space_sample(&S[0], NULL) < 0 && ccs_tree_space_sample(NULL, c) < 0 && ccs_tree_space_samples(&S[0], 1, NULL) < 0 && ccs_tree_space_samples(&S[0], 0, NULL) == CCS_RESULT_SUCCESS, "arguments");
	V_REACH("sample");
}
