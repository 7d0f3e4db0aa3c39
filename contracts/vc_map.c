/* Contracts for src/map.c: a map is a finite function from values to values. */
//@property C13
//@assume uthash is replaced by its abstract contract (include/vhash.h); that equal keys have equal hashes is C02
//@assume string contents are fixed samples in these units
#include "vcommon.h"
#define V_HASH_OOM (HOOM && nd_bool())
static int HOOM;
#include "datum_uthash.h"
#include "vhash.h"
#include "datum_hash.h"
#include "map_internal.h"
#include "vspec.h"
#include "vobj.h"
#pragma pack(push, 1)
struct m_entry { ccs_datum_t k, v; UT_hash_handle hh; };
struct m_entry2 { ccs_datum_t k, v; UT_hash_handle hh; char s[3]; };
struct m_entry3 { ccs_datum_t k, v; UT_hash_handle hh; char s[5]; };
struct m_map { struct _ccs_map_s m; void *d; };
#pragma pack(pop)
#define V_BLK1 struct m_entry
#define V_BLK2 struct m_map
#define V_BLK3 struct m_entry2
#define V_BLK4 struct m_entry3
#include "valloc.h"
#include "map.c"
#define OK(r) ((r) == CCS_RESULT_SUCCESS)
static ccs_map_t M;
static void
mk_map(void)
{
	M = NULL;
	v_check(OK(ccs_create_map(&M)) && M && M->obj.refcount == 1 && M->obj.type == CCS_OBJECT_TYPE_MAP, "create");
}
static void
del_map(void)
{
	v_check(OK(M->obj.ops->del(M)), "del");
	free(M);
}
/* the model: keys and values of up to 3 associations */
static int64_t  MK[4], MV[4];
static size_t   MN;
static int
m_find(int64_t k)
{
	for (size_t i = 0; i < MN; i++)
		if (MK[i] == k)
			return (int)i;
	return -1;
}
static void
m_set(int64_t k, int64_t v)
{
	int i = m_find(k);
	if (i < 0) {
		MK[MN]   = k;
		MV[MN++] = v;
	} else
		MV[i] = v;
}
static void
m_del(int64_t k)
{
	int i = m_find(k);
	if (i >= 0) {
		MN--;
		MK[i] = MK[MN];
		MV[i] = MV[MN];
	}
}
static void
agree(int64_t k)
{
	ccs_datum_t d = ccs_true;
	ccs_bool_t  e = 7;
	int         i = m_find(k);
	v_check(OK(ccs_map_get(M, ccs_int(k), &d)), "get");
	v_check(i < 0 ? is_none(&d) : d.type == CCS_DATA_TYPE_INT && d.value.i == MV[i], "get agrees");
	v_check(OK(ccs_map_exist(M, ccs_int(k), &e)) && e == (i < 0 ? CCS_FALSE : CCS_TRUE), "exist agrees");
	size_t n = 77;
	v_check(OK(ccs_map_get_keys(M, 0, NULL, &n)) && n == MN, "count agrees");
}
//@unit map_set unwind=5 bounded="3 insertions of integer keys and values" funcs=ccs_map_set,ccs_map_get,ccs_map_exist,ccs_create_map
void
h_map_set(void)
{
	mk_map();
	MN = 0;
	for (int i = 0; i < 3; i++) {
		int64_t k = nd_i64(), v = nd_i64();
		v_check(OK(ccs_map_set(M, ccs_int(k), ccs_int(v))), "set");
		m_set(k, v);
	}
	agree(nd_i64());
	V_REACH("end");
}
//@unit map_delete unwind=5 bounded="2 insertions, a deletion and an insertion of integer keys" funcs=ccs_map_set,ccs_map_del,ccs_map_get
void
h_map_delete(void)
{
	mk_map();
	MN = 0;
	for (int i = 0; i < 2; i++) {
		int64_t k = nd_i64(), v = nd_i64();
		v_check(OK(ccs_map_set(M, ccs_int(k), ccs_int(v))), "set");
		m_set(k, v);
	}
	int64_t      k = nd_i64();
	ccs_result_t r = ccs_map_del(M, ccs_int(k));
	v_check(m_find(k) < 0 ? r == CCS_RESULT_ERROR_INVALID_VALUE : OK(r), "only an existing key can be deleted");
	m_del(k);
	agree(k);
	k = nd_i64();
	agree(k);
	v_check(OK(ccs_map_set(M, ccs_int(k), ccs_int(3))), "set");
	m_set(k, 3);
	agree(nd_i64());
	V_REACH("end");
}
//@unit map_list prop=C13,C14 unwind=6 bounded="2 associations" funcs=ccs_map_get_keys,ccs_map_get_values,ccs_map_get_pairs,ccs_map_clear flags="--memory-leak-check"
void
h_map_list(void)
{
	mk_map();
	ccs_datum_t k[2] = {ccs_int(nd_i64()), ccs_float(nd_f64())}, v[2] = {ccs_float(nd_f64()), ccs_int(nd_i64())}, o[4], p[4];
	size_t      n;
	for (int i = 0; i < 2; i++)
		v_check(OK(ccs_map_set(M, k[i], v[i])), "set");
	for (int l = 0; l < 4; l++)
		for (int w = 0; w < 3; w++) {
			for (int j = 0; j < 4; j++)
				o[j] = p[j] = ccs_true;
			n = 77;
			ccs_result_t r = w == 0 ? ccs_map_get_keys(M, l, o, &n) : w == 1 ? ccs_map_get_values(M, l, p, &n) : ccs_map_get_pairs(M, l, o, p, &n);
			if (l < 2) {
				v_check(r == CCS_RESULT_ERROR_INVALID_VALUE && n == 77, "short array refused");
				for (int j = 0; j < 4; j++)
					v_check(datum_same(o + j, &ccs_true) && datum_same(p + j, &ccs_true), "untouched when refused");
				continue;
			}
			v_check(OK(r) && n == 2, "count");
			for (int j = 0; j < 4; j++) {
				if (w != 1)
					v_check(j >= 2 ? (j < l ? is_none(o + j) : datum_same(o + j, &ccs_true)) : 1, "rest of the keys is none");
				if (w != 0)
					v_check(j >= 2 ? (j < l ? is_none(p + j) : datum_same(p + j, &ccs_true)) : 1, "rest of the values is none");
			}
			int s = w == 1 ? datum_same(p, v + 1) && datum_same(p + 1, v) && !(datum_same(p, v) && datum_same(p + 1, v + 1)) : datum_same(o, k + 1) && datum_same(o + 1, k);
			if (w != 1)
				v_check(datum_same(o + s, k) && datum_same(o + 1 - s, k + 1), "every key once");
			if (w != 0)
				v_check(datum_same(p + s, v) && datum_same(p + 1 - s, v + 1), "every value at its key");
		}
	v_check(ccs_map_get_keys(M, 0, NULL, NULL) == CCS_RESULT_ERROR_INVALID_VALUE && ccs_map_get_values(M, 1, NULL, &n) == CCS_RESULT_ERROR_INVALID_VALUE && ccs_map_get_pairs(M, 0, NULL, NULL, NULL) == CCS_RESULT_ERROR_INVALID_VALUE && ccs_map_get_pairs(M, 2, o, NULL, &n) == CCS_RESULT_ERROR_INVALID_VALUE, "bad arguments");
	v_check(ccs_map_get_keys(NULL, 0, NULL, &n) == CCS_RESULT_ERROR_INVALID_OBJECT && ccs_map_get(M, k[0], NULL) == CCS_RESULT_ERROR_INVALID_VALUE && ccs_map_exist(M, k[0], NULL) == CCS_RESULT_ERROR_INVALID_VALUE && ccs_create_map(NULL) == CCS_RESULT_ERROR_INVALID_VALUE, "bad arguments");
	v_check(OK(ccs_map_clear(M)) && OK(ccs_map_get_values(M, 0, NULL, &n)) && n == 0, "cleared");
	del_map();
	V_REACH("end");
}
static _ccs_object_template_t OB[4];
static ccs_datum_t
obj(int i)
{
	return ccs_object((ccs_object_t)(OB + i));
}
static void
objs(void)
{
	for (int i = 0; i < 4; i++) {
		mk_shell(OB + i, CCS_OBJECT_TYPE_RNG, NULL, OB);
		OB[i].obj.refcount = 3;
	}
}
static int
refs(int a, int b, int c, int d)
{
	return OB[0].obj.refcount == 3 + a && OB[1].obj.refcount == 3 + b && OB[2].obj.refcount == 3 + c && OB[3].obj.refcount == 3 + d;
}
//@unit map_objects prop=C12,C13 unwind=5 bounded="2 associations of objects" funcs=ccs_map_set,ccs_map_del,ccs_map_clear,_ccs_map_del flags="--memory-leak-check"
void
h_map_objects(void)
{
	ccs_datum_t d = ccs_true;
	objs();
	mk_map();
	v_check(OK(ccs_map_set(M, obj(0), obj(1))) && refs(1, 1, 0, 0), "a reference to key and value");
	v_check(OK(ccs_map_set(M, obj(0), obj(1))) && refs(1, 1, 0, 0), "set again");
	v_check(OK(ccs_map_set(M, obj(0), obj(2))) && refs(1, 0, 1, 0), "replaced");
	v_check(OK(ccs_map_get(M, obj(0), &d)) && d.type == CCS_DATA_TYPE_OBJECT && d.value.o == (ccs_object_t)(OB + 2) && refs(1, 0, 1, 0), "get takes no reference");
	ccs_datum_t id = obj(3);
	id.flags |= CCS_DATUM_FLAG_ID;
	v_check(OK(ccs_map_set(M, ccs_int(4), id)) && refs(1, 0, 1, 0), "identifiers hold no reference");
	int how = (int)nd_upto(2);
	if (how == 0) {
		v_check(OK(ccs_map_del(M, obj(0))) && refs(0, 0, 0, 0), "given back on deletion");
		v_check(OK(ccs_map_del(M, ccs_int(4))) && refs(0, 0, 0, 0), "identifiers hold no reference");
	} else if (how == 1)
		v_check(OK(ccs_map_clear(M)) && refs(0, 0, 0, 0), "given back on clear");
	del_map();
	v_check(refs(0, 0, 0, 0), "given back on destruction");
	V_REACH("end");
}
//@unit map_oom prop=C12,C13 unwind=5 bounded="2 insertions" funcs=ccs_map_set,ccs_create_map flags="--memory-leak-check"
void
h_map_oom(void)
{
	ccs_datum_t d = ccs_true;
	size_t      n = 77;
	objs();
	V_OOM = 1;
	M     = NULL;
	ccs_result_t r = ccs_create_map(&M);
	V_OOM = 0;
	if (!OK(r)) {
		v_check(r == CCS_RESULT_ERROR_OUT_OF_MEMORY && !M, "out of memory");
		return;
	}
	v_check(OK(ccs_map_set(M, obj(0), obj(1))), "set");
	V_OOM = HOOM = 1;
	int same = nd_bool();
	r        = same ? ccs_map_set(M, obj(0), obj(2)) : ccs_map_set(M, obj(3), obj(2));
	V_OOM = HOOM = 0;
	v_check(OK(ccs_map_get(M, obj(0), &d)) && OK(ccs_map_get_keys(M, 0, NULL, &n)), "get");
	if (OK(r)) {
		v_check(same ? d.value.o == (ccs_object_t)(OB + 2) && n == 1 && refs(1, 0, 1, 0) : d.value.o == (ccs_object_t)(OB + 1) && n == 2 && refs(1, 1, 1, 1), "set");
		V_REACH("set");
	} else {
		v_check(r == CCS_RESULT_ERROR_OUT_OF_MEMORY && d.type == CCS_DATA_TYPE_OBJECT && d.value.o == (ccs_object_t)(OB + 1) && n == 1 && refs(1, 1, 0, 0), "a failed set leaves the map and references unchanged");
		V_REACH("failed");
	}
	del_map();
	v_check(refs(0, 0, 0, 0), "references given back");
}
static ccs_datum_t
str(const char *s, int transient)
{
	ccs_datum_t d = ccs_string(s);
	d.flags       = transient ? CCS_DATUM_FLAG_TRANSIENT : CCS_DATUM_FLAG_DEFAULT;
	return d;
}
//@unit map_strings unwind=6 bounded="sample strings" funcs=ccs_map_set,ccs_map_get flags="--memory-leak-check"
void
h_map_strings(void)
{
	char        k1[3] = "ab", k2[3] = "ab", v[2] = "c";
	ccs_datum_t d = ccs_true, e = ccs_true;
	ccs_bool_t  x = 7;
	size_t      n = 77;
	mk_map();
	v_check(OK(ccs_map_set(M, str(k1, 1), str(v, 1))), "set");
	k1[0] = 'x';
	v[0]  = 'y';
	v_check(OK(ccs_map_get(M, str(k2, 0), &d)) && d.type == CCS_DATA_TYPE_STRING && !strcmp(d.value.s, "c") && !(d.flags & CCS_DATUM_FLAG_TRANSIENT), "transient strings are copied");
	v_check(OK(ccs_map_exist(M, str(k1, 1), &x)) && x == CCS_FALSE, "keys compare by content");
	v_check(OK(ccs_map_set(M, str(k2, 1), ccs_int(4))) && OK(ccs_map_get_pairs(M, 1, &e, &d, &n)) && n == 1 && !strcmp(e.value.s, "ab") && d.type == CCS_DATA_TYPE_INT && d.value.i == 4, "an equal key replaces");
	del_map();
	V_REACH("end");
}
