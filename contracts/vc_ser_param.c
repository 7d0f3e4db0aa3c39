/* Wire format of parameters: src/parameter_*.c (writing) and
 * src/parameter_deserialize.h (reading), over the primitives by contract. */
//@property C04
//@assume the wire primitives keep the contract of include/vtape.h (proved by units of C03 and C05); constructors keep theirs (C06, C07): here they record the arguments given
#include "vcommon.h"
#include "vobj.h"
#include "vtape.h"
#include "vspec.h"
struct blk_v2 { ccs_datum_t v[2]; };
struct blk_v3 { ccs_datum_t v[3]; };
struct blk_v1 { ccs_datum_t v[1]; };
#define V_BLK1 struct blk_v2
#define V_BLK2 struct blk_v1
#define V_BLK3 struct blk_v3
#include "valloc.h"
#include "parameter_numerical.c"
#include "parameter_categorical.c"
#include "parameter_string.c"
static struct _ccs_parameter_s NEWP;
static int                     NCREATE, CFAILS;
static struct { char name[4]; ccs_parameter_type_t type; ccs_numeric_type_t nt; ccs_numeric_t lo, up, q, def; size_t n, di; ccs_datum_t pv[4]; } CR;
static ccs_result_t
created(const char *name, ccs_parameter_type_t t, ccs_parameter_t *r)
{
	NCREATE++;
	if (CFAILS && nd_bool())
		return CCS_RESULT_ERROR_OUT_OF_MEMORY;
	for (int k = 0; k < 3; k++) {
		CR.name[k] = name[k];
		if (!name[k])
			break;
	}
	CR.type = t;
	NEWP.obj.type = CCS_OBJECT_TYPE_PARAMETER;
	NEWP.obj.refcount = 1;
	*r = &NEWP;
	return CCS_RESULT_SUCCESS;
}
static ccs_result_t
v_cnum(const char *name, ccs_numeric_type_t t, ccs_numeric_t lo, ccs_numeric_t up, ccs_numeric_t q, ccs_numeric_t def, ccs_parameter_t *r)
{
	CR.nt = t, CR.lo = lo, CR.up = up, CR.q = q, CR.def = def;
	return created(name, CCS_PARAMETER_TYPE_NUMERICAL, r);
}
static ccs_result_t
v_clist(const char *name, size_t n, ccs_datum_t *pv, size_t di, ccs_parameter_t *r, ccs_parameter_type_t t)
{
	CR.n = n, CR.di = di;
	for (size_t k = 0; k < 4; k++)
		if (k < n)
			CR.pv[k] = pv[k];
	return created(name, t, r);
}
static ccs_result_t v_ccat(const char *name, size_t n, ccs_datum_t *pv, size_t di, ccs_parameter_t *r) { return v_clist(name, n, pv, di, r, CCS_PARAMETER_TYPE_CATEGORICAL); }
static ccs_result_t v_cord(const char *name, size_t n, ccs_datum_t *pv, size_t di, ccs_parameter_t *r) { return v_clist(name, n, pv, di, r, CCS_PARAMETER_TYPE_ORDINAL); }
static ccs_result_t v_cdis(const char *name, size_t n, ccs_datum_t *pv, size_t di, ccs_parameter_t *r) { return v_clist(name, n, pv, di, r, CCS_PARAMETER_TYPE_DISCRETE); }
static ccs_result_t v_cstr(const char *name, ccs_parameter_t *r) { return created(name, CCS_PARAMETER_TYPE_STRING, r); }
/* equality of values: same kind, same content (C02) */
static int
veq(ccs_datum_t a, ccs_datum_t b)
{
	if (a.type != b.type)
		return 0;
	if (a.type == CCS_DATA_TYPE_NONE || a.type == CCS_DATA_TYPE_INACTIVE)
		return 1;
	if (a.type == CCS_DATA_TYPE_STRING)
		return a.value.s[0] == b.value.s[0] && (a.value.s[0] == 0 || (a.value.s[1] == b.value.s[1]));
	if (a.type == CCS_DATA_TYPE_FLOAT)
		return a.value.f == b.value.f;
	if (a.type == CCS_DATA_TYPE_BOOL)
		return !a.value.i == !b.value.i;
	return a.value.i == b.value.i;
}
int
ccs_datum_cmp(ccs_datum_t a, ccs_datum_t b)
{
	return !veq(a, b);
}
#define ccs_create_numerical_parameter v_cnum
#define ccs_create_categorical_parameter v_ccat
#define ccs_create_ordinal_parameter v_cord
#define ccs_create_discrete_parameter v_cdis
#define ccs_create_string_parameter v_cstr
#include "parameter_deserialize.h"
static struct _ccs_parameter_s P;
static char                    NM[3], SV[2][2];
static void
common(_ccs_parameter_common_data_t *c, ccs_parameter_type_t t, void *ops)
{
	_ccs_object_init(&P.obj, CCS_OBJECT_TYPE_PARAMETER, (_ccs_object_ops_t *)ops);
	P.data = (_ccs_parameter_data_t *)c;
	NM[0] = (char)nd_u64(), NM[1] = (char)nd_u64();
	c->type = t, c->name = NM;
}
static void
finish(ccs_parameter_t o)
{
	v_check(o == &NEWP && NCREATE == 1 && REFS(o) == 1, "one object created and returned");
	v_check(CR.name[0] == NM[0] && (NM[0] == 0 || CR.name[1] == NM[1]), "same name");
	v_check(HMN == 1 && HMK[0] == (ccs_object_t)&P && HMV[0] == (ccs_object_t)&NEWP, "its handle leads to the object read");
}
//@unit ser_num cases=2 prop=C04 unwind=18 funcs=_ccs_parameter_numerical_serialize_size,_ccs_parameter_numerical_serialize,_ccs_serialize_bin_ccs_parameter_numerical_data,_ccs_serialize_bin_ccs_parameter_common_data,_ccs_parameter_deserialize,_ccs_deserialize_bin_parameter,_ccs_deserialize_bin_parameter_numerical flags="--memory-leak-check"
void
h_ser_num(void)
{
	static _ccs_parameter_numerical_data_t D;
	ccs_parameter_t                        o = NULL;
	int                                    fl = V_CASE & 1;
	common(&D.common_data, CCS_PARAMETER_TYPE_NUMERICAL, &_ccs_parameter_numerical_ops);
	D.common_data.interval.type = fl ? CCS_NUMERIC_TYPE_FLOAT : CCS_NUMERIC_TYPE_INT;
	D.common_data.interval.lower.i = nd_i64(), D.common_data.interval.upper.i = nd_i64(), D.quantization.i = nd_i64();
	D.common_data.interval.lower_included = CCS_TRUE, D.common_data.interval.upper_included = CCS_FALSE;
	D.common_data.default_value = fl ? ccs_float(nd_f64()) : ccs_int(nd_i64());
	if (fl)
		v_assume(!v_isnan(D.common_data.interval.lower.f) && !v_isnan(D.common_data.interval.upper.f) && !v_isnan(D.quantization.f) && !v_isnan(D.common_data.default_value.value.f));
	V_WRITE(P.obj.ops->serialize_size, P.obj.ops->serialize, &P);
	V_READ(_ccs_parameter_deserialize, ccs_parameter_t, &o);
	finish(o);
	v_check(CR.type == CCS_PARAMETER_TYPE_NUMERICAL && CR.nt == D.common_data.interval.type, "same kind");
	if (fl)
		v_check(CR.lo.f == D.common_data.interval.lower.f && CR.up.f == D.common_data.interval.upper.f && CR.q.f == D.quantization.f && CR.def.f == D.common_data.default_value.value.f, "same range, quantization and default");
	else
		v_check(CR.lo.i == D.common_data.interval.lower.i && CR.up.i == D.common_data.interval.upper.i && CR.q.i == D.quantization.i && CR.def.i == D.common_data.default_value.value.i, "same range, quantization and default");
	V_SHORT(P.obj.ops->serialize, &P);
	V_REACH("end");
}
static ccs_datum_t
value(int k)
{
	size_t c = (V_CASE / 3 + k) % 4;
	if (c == 0)
		return ccs_int(nd_i64());
	if (c == 1)
		return ccs_float(nd_f64());
	if (c == 2)
		return ccs_bool((ccs_bool_t)nd_bool());
	SV[k][0] = (char)nd_u64();
	return ccs_string(SV[k]);
}
//@unit ser_list cases=12 prop=C04 unwind=18 bounded="two values, names and strings of up to two characters" funcs=_ccs_parameter_categorical_serialize_size,_ccs_parameter_categorical_serialize,_ccs_serialize_bin_ccs_parameter_categorical_data,_ccs_parameter_deserialize,_ccs_deserialize_bin_parameter,_ccs_deserialize_bin_parameter_categorical,_ccs_deserialize_bin_ccs_parameter_categorical_data flags="--memory-leak-check"
void
h_ser_list(void)
{
	static _ccs_parameter_categorical_data_t D;
	static _ccs_hash_datum_t                 H[2];
	static const ccs_parameter_type_t        TY[3] = {CCS_PARAMETER_TYPE_CATEGORICAL, CCS_PARAMETER_TYPE_ORDINAL, CCS_PARAMETER_TYPE_DISCRETE};
	ccs_parameter_t                          o = NULL;
	size_t                                   di = V_CASE / 3 & 1;
	common(&D.common_data, TY[V_CASE % 3], &_ccs_parameter_categorical_ops);
	D.num_possible_values = 2, D.possible_values = H;
	for (int k = 0; k < 2; k++) {
		H[k].d = value(k);
		if (H[k].d.type == CCS_DATA_TYPE_FLOAT)
			v_assume(!v_isnan(H[k].d.value.f));
	}
	v_assume(!veq(H[0].d, H[1].d));
	D.common_data.default_value = H[di].d;
	D.common_data.interval.type = CCS_NUMERIC_TYPE_INT, D.common_data.interval.lower.i = 0, D.common_data.interval.upper.i = 2, D.common_data.interval.lower_included = CCS_TRUE;
	V_WRITE(P.obj.ops->serialize_size, P.obj.ops->serialize, &P);
	V_READ(_ccs_parameter_deserialize, ccs_parameter_t, &o);
	finish(o);
	v_check(CR.type == TY[V_CASE % 3] && CR.n == 2 && CR.di == di, "same kind, number of values and default");
	v_check(veq(CR.pv[0], H[0].d) && veq(CR.pv[1], H[1].d), "same values in the same order");
	V_SHORT(P.obj.ops->serialize, &P);
	V_REACH("end");
}
//@unit ser_strp prop=C04 unwind=18 bounded="names of up to two characters" funcs=_ccs_parameter_string_serialize_size,_ccs_parameter_string_serialize,_ccs_parameter_deserialize,_ccs_deserialize_bin_parameter_string flags="--memory-leak-check"
void
h_ser_strp(void)
{
	static _ccs_parameter_string_data_t D;
	ccs_parameter_t                     o = NULL;
	common(&D.common_data, CCS_PARAMETER_TYPE_STRING, &_ccs_parameter_string_ops);
	D.common_data.interval.type = (ccs_numeric_type_t)CCS_NUMERIC_TYPE_INT;
	V_WRITE(P.obj.ops->serialize_size, P.obj.ops->serialize, &P);
	V_READ(_ccs_parameter_deserialize, ccs_parameter_t, &o);
	finish(o);
	v_check(CR.type == CCS_PARAMETER_TYPE_STRING, "same kind");
	V_SHORT(P.obj.ops->serialize, &P);
	V_REACH("end");
}
/* kind, number of values, token refused; N: 2^60 values */
#define N (INT64_C(1) << 60)
static const struct { int k; int64_t n; size_t f; } DC[24] = {{0, 2, 0}, {0, 2, 1}, {0, 2, 2}, {0, 2, 3}, {0, 2, 4}, {0, 2, 5}, {0, 2, 6}, {0, 2, 7}, {0, 2, 8}, {0, 2, 9}, {0, 2, 10}, {0, 0, 10}, {0, 1, 10}, {0, N, 10}, {1, 0, 5}, {1, 0, 6}, {1, 0, 7}, {1, 0, 10}, {2, 0, 5}, {2, 0, 6}, {2, 0, 10}, {3, 0, 10}, {4, 0, 10}, {0, 9, 20}};
static const uint64_t DK[5] = {CCS_PARAMETER_TYPE_CATEGORICAL, CCS_PARAMETER_TYPE_NUMERICAL, CCS_PARAMETER_TYPE_STRING, 77, CCS_PARAMETER_TYPE_ORDINAL};
//@unit des_param cases=24 prop=C05 unwind=18 bounded="buffers of ten tokens; at most two values" funcs=_ccs_parameter_deserialize,_ccs_deserialize_bin_parameter,_ccs_deserialize_bin_parameter_numerical,_ccs_deserialize_bin_parameter_categorical,_ccs_deserialize_bin_parameter_string flags="--memory-leak-check"
void
h_des_param(void)
{
	ccs_parameter_t o  = NULL;
	size_t          bs = 10;
	const char     *b  = VBUF;
	v_arbitrary(V_CASE == 22 ? CCS_OBJECT_TYPE_TREE : CCS_OBJECT_TYPE_PARAMETER, DC[V_CASE].n, DC[V_CASE].f);
	TAPE[2].k = VT_V, TAPE[2].v = DK[DC[V_CASE].k];
	CFAILS = 1, V_OOM = nd_bool();
	DOPTS.handle_map = nd_bool() ? (ccs_map_t)&HM : NULL;
	ccs_result_t x = _ccs_parameter_deserialize(&o, CCS_SERIALIZE_FORMAT_BINARY, 0, &bs, &b, &DOPTS);
	v_check(bs <= 10, "no more read than there is");
	if (x == CCS_RESULT_SUCCESS)
		v_check(o == &NEWP && REFS(o) == 1 && UDOBJ == (ccs_object_t)o, "the object read is returned");
	else
		v_check(REFS(&NEWP) == 0, "nothing is left behind by a refused stream");
	V_REACH("end");
}
