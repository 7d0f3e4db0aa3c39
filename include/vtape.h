/* The wire format by contract, for the units over whole objects.
 *
 * What units of C03 prove of every primitive (numbers, strings, values,
 * intervals, object headers, user data) is assumed here: writing announces a
 * size that depends on the format and the value only, occupies exactly that
 * size or reports that the room left is too small, and reading at the same
 * place gives the value back and consumes the same size.  Primitives write
 * tokens on a tape instead of bytes; fixed width formats have their real size,
 * the others size one.  That sizes of variable width formats do agree is
 * checked by comparing what was announced with what was written, as multisets
 * of (format, value): the sums are equal whatever the size function.
 *
 * Reading arbitrary bytes (ARB set) gives arbitrary values of each type, except
 * where the unit fixes them (counts, kinds: one case each), until the token at
 * FAILAT, which is refused (end of the data or not a value of its type).
 * Everything included after this header uses these primitives. */
#ifndef VTAPE_H
#define VTAPE_H
#ifndef NTAPE
#define NTAPE 48
#endif
#ifndef NLOG
#define NLOG 16
#endif
enum { VT_NIL, VT_U8, VT_V, VT_S, VT_F4, VT_F8, VT_FL, VT_P, VT_STR, VT_BLOB, VT_IV, VT_D, VT_UD, VT_SUB };
struct vtok {
	int            k, fixed; /* fixed: by the unit, when reading arbitrary bytes */
	uint64_t       v;
	double         f;
	const void    *p;
	char           s[4];
	ccs_datum_t    d;
	ccs_interval_t i;
};
static struct vtok TAPE[NTAPE];
static char        VBUF[NTAPE];
static struct vtok ANN[NLOG], WR[NLOG];
static int         NANN, NWR, ARB;
static size_t      FAILAT = NTAPE;
static size_t
v_toksize(int k)
{
	return k == VT_F4 ? 4 : k == VT_F8 || k == VT_FL ? 8 : 1;
}
static int
v_toksame(const struct vtok *a, const struct vtok *b)
{
	if (a->k != b->k)
		return 0;
	switch (a->k) {
	case VT_V:
	case VT_S:
		return a->v == b->v;
	case VT_P:
	case VT_UD:
	case VT_SUB:
		return a->p == b->p;
	case VT_STR:
		return a->s[0] == b->s[0] && (a->s[0] == 0 || (a->s[1] == b->s[1] && (a->s[1] == 0 || a->s[2] == b->s[2])));
	case VT_BLOB:
		return a->v == b->v && a->p == b->p;
	case VT_D:
		return a->d.type == b->d.type && a->d.value.i == b->d.value.i;
	case VT_IV:
		return a->i.type == b->i.type && a->i.lower.i == b->i.lower.i && a->i.upper.i == b->i.upper.i && a->i.lower_included == b->i.lower_included && a->i.upper_included == b->i.upper_included;
	default:
		return 1;
	}
}
static size_t
v_ann(struct vtok t)
{
	v_assume(NANN < NLOG);
	ANN[NANN++] = t;
	return v_toksize(t.k);
}
static ccs_result_t
v_put(struct vtok t, size_t *bs, char **b)
{
	size_t sz   = v_toksize(t.k);
	size_t off  = (size_t)(*b - VBUF);
	int    fits = *bs >= sz;
	v_check(!fits || off < NTAPE && sz <= NTAPE - off, "written inside the buffer");
	v_assume(off < NTAPE && NWR < NLOG);
	TAPE[off] = t;
	WR[NWR++] = t;
	*b += sz; /* moves even when refused: known offsets keep the proof small */
	*bs -= fits ? sz : 0;
	return fits ? CCS_RESULT_SUCCESS : CCS_RESULT_ERROR_NOT_ENOUGH_DATA;
}
/* the token at the cursor; reading arbitrary bytes makes one up, the same each
 * time that place is read */
static struct vtok *
v_look(int k, size_t *bs, const char **b)
{
	size_t sz  = ARB ? 1 : v_toksize(k);
	size_t off = (size_t)(*b - VBUF);
	v_check(*bs < sz || off < NTAPE, "read inside the buffer");
	v_assume(off < NTAPE);
	if (ARB) {
		if (TAPE[off].k == VT_NIL) {
			TAPE[off].k = k;
			TAPE[off].v = nd_u64();
			TAPE[off].f = nd_f64();
		}
	} else
		v_check(TAPE[off].k == k, "read in the order and format written");
	return *bs < sz || ARB && off == FAILAT ? NULL : &TAPE[off];
}
static struct vtok *
v_take(int k, size_t *bs, const char **b)
{
	struct vtok *t  = v_look(k, bs, b);
	size_t       sz = ARB ? 1 : v_toksize(k);
	*bs -= t ? sz : 0;
	*b += sz;
	return t;
}
static struct vtok
v_num(int k, uint64_t v)
{
	struct vtok t = {0};
	t.k = k, t.v = v;
	return t;
}
#define VT_NUM(NAME, TYPE, K)                                                  \
	static inline ccs_result_t v_ser_##NAME(TYPE x, size_t *bs, char **b) { return v_put(v_num(K, (uint64_t)x), bs, b); } \
	static inline size_t v_ann_##NAME(TYPE x) { return v_ann(v_num(K, (uint64_t)x)); } \
	static inline ccs_result_t v_get_##NAME(TYPE *x, size_t *bs, const char **b) \
	{                                                                      \
		struct vtok *t = v_take(K, bs, b);                             \
		if (!t)                                                        \
			return CCS_RESULT_ERROR_NOT_ENOUGH_DATA;               \
		*x = (TYPE)t->v;                                               \
		return CCS_RESULT_SUCCESS;                                     \
	}                                                                      \
	static inline ccs_result_t v_peek_##NAME(TYPE *x, size_t *bs, const char **b) \
	{                                                                      \
		struct vtok *t = v_look(K, bs, b);                             \
		if (!t)                                                        \
			return CCS_RESULT_ERROR_NOT_ENOUGH_DATA;               \
		*x = (TYPE)t->v;                                               \
		return CCS_RESULT_SUCCESS;                                     \
	}
VT_NUM(uint8, uint8_t, VT_U8)
VT_NUM(int8, int8_t, VT_U8)
VT_NUM(uint16, uint16_t, VT_V)
VT_NUM(int16, int16_t, VT_S)
VT_NUM(uint32, uint32_t, VT_V)
VT_NUM(int32, int32_t, VT_S)
VT_NUM(uint64, uint64_t, VT_V)
VT_NUM(uncompressed_uint64, uint64_t, VT_F8)
VT_NUM(int64, int64_t, VT_S)
VT_NUM(ccs_hash, ccs_hash_t, VT_F4)
VT_NUM(ccs_bool, ccs_bool_t, VT_V)
VT_NUM(ccs_int, ccs_int_t, VT_S)
VT_NUM(ccs_numeric_type, ccs_numeric_type_t, VT_V)
VT_NUM(ccs_parameter_type, ccs_parameter_type_t, VT_V)
VT_NUM(ccs_datum_flags, ccs_datum_flags_t, VT_V)
VT_NUM(ccs_data_type, ccs_data_type_t, VT_V)
VT_NUM(ccs_object_type, ccs_object_type_t, VT_V)
VT_NUM(ccs_scale_type, ccs_scale_type_t, VT_V)
VT_NUM(ccs_distribution_type, ccs_distribution_type_t, VT_V)
VT_NUM(ccs_expression_type, ccs_expression_type_t, VT_V)
VT_NUM(ccs_objective_type, ccs_objective_type_t, VT_V)
VT_NUM(ccs_tuner_type, ccs_tuner_type_t, VT_V)
VT_NUM(ccs_features_tuner_type, ccs_features_tuner_type_t, VT_V)
VT_NUM(ccs_tree_space_type, ccs_tree_space_type_t, VT_V)
VT_NUM(ccs_tree_tuner_type, ccs_tree_tuner_type_t, VT_V)
VT_NUM(ccs_evaluation_result, ccs_evaluation_result_t, VT_S)
/* the counts found in arbitrary bytes, where the unit fixes them */
static int64_t ARBCNT = -1;
static inline size_t v_ann_sizet(size_t x) { return v_ann_uint64(x); }
static inline ccs_result_t v_ser_sizet(size_t x, size_t *bs, char **b) { return v_ser_uint64(x, bs, b); }
static inline ccs_result_t
v_get_sizet(size_t *x, size_t *bs, const char **b)
{
	struct vtok *t = v_take(VT_V, bs, b);
	if (!t)
		return CCS_RESULT_ERROR_NOT_ENOUGH_DATA;
	*x = ARB && ARBCNT >= 0 && !t->fixed ? (size_t)ARBCNT : t->v;
	return CCS_RESULT_SUCCESS;
}
static struct vtok
v_flt(double f)
{
	struct vtok t = {0};
	t.k = VT_FL, t.f = f;
	return t;
}
static inline size_t v_ann_ccs_float(double x) { return v_ann(v_flt(x)); }
static inline ccs_result_t v_ser_ccs_float(double x, size_t *bs, char **b) { return v_put(v_flt(x), bs, b); }
static inline ccs_result_t
v_get_ccs_float(double *x, size_t *bs, const char **b)
{
	struct vtok *t = v_take(VT_FL, bs, b);
	if (!t)
		return CCS_RESULT_ERROR_NOT_ENOUGH_DATA;
	*x = t->f;
	return CCS_RESULT_SUCCESS;
}
static inline ccs_result_t
v_peek_ccs_float(double *x, size_t *bs, const char **b)
{
	struct vtok *t = v_look(VT_FL, bs, b);
	if (!t)
		return CCS_RESULT_ERROR_NOT_ENOUGH_DATA;
	*x = t->f;
	return CCS_RESULT_SUCCESS;
}
static struct vtok
v_ptr(int k, const void *p)
{
	struct vtok t = {0};
	t.k = k, t.p = p;
	return t;
}
/* a handle; from arbitrary bytes it is none of this unit's objects, except
 * where the unit says which ones it may be */
static void *ARBP[3];
static inline size_t v_ann_ccs_object(ccs_object_t x) { return v_ann(v_ptr(VT_P, x)); }
static inline ccs_result_t v_ser_ccs_object(ccs_object_t x, size_t *bs, char **b) { return v_put(v_ptr(VT_P, x), bs, b); }
static inline ccs_result_t
v_peek_ccs_object(ccs_object_t *x, size_t *bs, const char **b)
{
	struct vtok *t = v_look(VT_P, bs, b);
	if (!t)
		return CCS_RESULT_ERROR_NOT_ENOUGH_DATA;
	*x = (ccs_object_t)(ARB ? ARBP[t->v % 3] : t->p);
	return CCS_RESULT_SUCCESS;
}
static inline ccs_result_t
v_get_ccs_object(ccs_object_t *x, size_t *bs, const char **b)
{
	struct vtok *t = v_take(VT_P, bs, b);
	if (!t)
		return CCS_RESULT_ERROR_NOT_ENOUGH_DATA;
	*x = (ccs_object_t)(ARB ? ARBP[t->v % 3] : t->p);
	return CCS_RESULT_SUCCESS;
}
/* strings of up to two characters; what is read lives in the buffer */
static struct vtok
v_str(const char *s)
{
	struct vtok t = {0};
	t.k = VT_STR;
	for (int j = 0; j < 3; j++) {
		t.s[j] = s[j];
		if (!s[j])
			break;
	}
	return t;
}
static inline size_t v_ann_string(const char *x) { return v_ann(v_str(x)); }
static inline ccs_result_t v_ser_string(const char *x, size_t *bs, char **b) { return v_put(v_str(x), bs, b); }
static inline ccs_result_t
v_get_string(const char **x, size_t *bs, const char **b)
{
	struct vtok *t = v_take(VT_STR, bs, b);
	if (!t)
		return CCS_RESULT_ERROR_NOT_ENOUGH_DATA;
	*x = t->s;
	return CCS_RESULT_SUCCESS;
}
/* blobs: the bytes are not copied by the tape, a blob read back is the one
 * written */
static struct vtok
v_blb(const _ccs_blob_t *x)
{
	struct vtok t = {0};
	t.k = VT_BLOB, t.v = x->sz, t.p = x->blob;
	return t;
}
static inline size_t v_ann_ccs_blob(_ccs_blob_t *x) { return v_ann(v_blb(x)); }
static inline ccs_result_t v_ser_ccs_blob(_ccs_blob_t *x, size_t *bs, char **b) { return v_put(v_blb(x), bs, b); }
static char ARBBLOB[8];
static inline ccs_result_t
v_get_ccs_blob(_ccs_blob_t *x, size_t *bs, const char **b)
{
	struct vtok *t = v_take(VT_BLOB, bs, b);
	if (!t)
		return CCS_RESULT_ERROR_NOT_ENOUGH_DATA;
	x->sz   = ARB ? t->v % 9 : t->v;
	x->blob = ARB ? ARBBLOB : t->p;
	return CCS_RESULT_SUCCESS;
}
static struct vtok
v_ivt(const ccs_interval_t *x)
{
	struct vtok t = {0};
	t.k = VT_IV, t.i = *x;
	return t;
}
static inline size_t v_ann_ccs_interval(const ccs_interval_t *x) { return v_ann(v_ivt(x)); }
static inline ccs_result_t v_ser_ccs_interval(const ccs_interval_t *x, size_t *bs, char **b) { return v_put(v_ivt(x), bs, b); }
static inline ccs_result_t
v_get_ccs_interval(ccs_interval_t *x, size_t *bs, const char **b)
{
	struct vtok *t = v_take(VT_IV, bs, b);
	if (!t)
		return CCS_RESULT_ERROR_NOT_ENOUGH_DATA;
	if (ARB) {
		x->type = (ccs_numeric_type_t)(uint32_t)t->v;
		x->lower.i = nd_i64(), x->upper.i = nd_i64();
		x->lower_included = (ccs_bool_t)nd_i32(), x->upper_included = (ccs_bool_t)nd_i32();
	} else
		*x = t->i;
	return CCS_RESULT_SUCCESS;
}
static struct vtok
v_dat(ccs_datum_t d)
{
	struct vtok t = {0};
	if (d.type == CCS_DATA_TYPE_STRING)
		t = v_str(d.value.s);
	t.k = VT_D, t.d = d;
	return t;
}
static inline size_t v_ann_ccs_datum(ccs_datum_t x) { return v_ann(v_dat(x)); }
static inline ccs_result_t
v_ser_ccs_datum(ccs_datum_t x, size_t *bs, char **b)
{
	if (x.type < CCS_DATA_TYPE_NONE || x.type > CCS_DATA_TYPE_OBJECT)
		return CCS_RESULT_ERROR_INVALID_TYPE;
	return v_put(v_dat(x), bs, b);
}
static inline ccs_result_t
v_get_ccs_datum(ccs_datum_t *x, size_t *bs, const char **b)
{
	struct vtok *t = v_take(VT_D, bs, b);
	if (!t)
		return CCS_RESULT_ERROR_NOT_ENOUGH_DATA;
	ccs_datum_t d = t->d;
	if (ARB) {
		d.type = (ccs_data_type_t)(t->v & 7);
		v_assume(d.type >= CCS_DATA_TYPE_NONE && d.type <= CCS_DATA_TYPE_OBJECT);
		if (d.type == CCS_DATA_TYPE_OBJECT)
			d.value.o = (ccs_object_t)ARBP[nd_upto(2)];
		else
			d.value.i = nd_i64();
	}
	if (d.type == CCS_DATA_TYPE_NONE || d.type == CCS_DATA_TYPE_INACTIVE)
		d.value.i = 0;
	d.flags = CCS_DATUM_FLAG_DEFAULT;
	if (d.type == CCS_DATA_TYPE_STRING)
		d.value.s = t->s, d.flags |= CCS_DATUM_FLAG_TRANSIENT;
	if (d.type == CCS_DATA_TYPE_OBJECT)
		d.flags |= CCS_DATUM_FLAG_ID;
	*x = d;
	return CCS_RESULT_SUCCESS;
}
static inline size_t
v_ann_ccs_object_internal(_ccs_object_internal_t *o)
{
	size_t s = v_ann_ccs_object_type(o->type);
	return s + v_ann_ccs_object((ccs_object_t)o);
}
static inline ccs_result_t
v_ser_ccs_object_internal(_ccs_object_internal_t *o, size_t *bs, char **b)
{
	ccs_result_t r = v_ser_ccs_object_type(o->type, bs, b), q = v_ser_ccs_object((ccs_object_t)o, bs, b);
	return r != CCS_RESULT_SUCCESS ? r : q;
}
static inline ccs_result_t
v_get_ccs_object_internal(_ccs_object_internal_t *o, size_t *bs, const char **b, ccs_object_t *h)
{
	ccs_result_t r = v_get_ccs_object_type(&o->type, bs, b), q = v_get_ccs_object(h, bs, b);
	return r != CCS_RESULT_SUCCESS ? r : q;
}
/* user data of an object */
static ccs_object_t UDOBJ;
static inline ccs_result_t
v_ann_user_data(ccs_object_t o, ccs_serialize_format_t f, size_t *bs, _ccs_object_serialize_options_t *opts)
{
	(void)opts;
	if (f != CCS_SERIALIZE_FORMAT_BINARY)
		return CCS_RESULT_ERROR_INVALID_VALUE;
	*bs += v_ann(v_ptr(VT_UD, o));
	return CCS_RESULT_SUCCESS;
}
static inline ccs_result_t
v_ser_user_data(ccs_object_t o, ccs_serialize_format_t f, size_t *bs, char **b, _ccs_object_serialize_options_t *opts)
{
	(void)opts;
	if (f != CCS_SERIALIZE_FORMAT_BINARY)
		return CCS_RESULT_ERROR_INVALID_VALUE;
	return v_put(v_ptr(VT_UD, o), bs, b);
}
static inline ccs_result_t
v_get_user_data(ccs_object_t o, ccs_serialize_format_t f, uint32_t version, size_t *bs, const char **b, _ccs_object_deserialize_options_t *opts)
{
	(void)opts;
	(void)version;
	if (f != CCS_SERIALIZE_FORMAT_BINARY)
		return CCS_RESULT_ERROR_INVALID_VALUE;
	struct vtok *t = v_take(VT_UD, bs, b);
	if (!t)
		return CCS_RESULT_ERROR_NOT_ENOUGH_DATA;
	UDOBJ = o;
	return CCS_RESULT_SUCCESS;
}
/* the caller's map of handles (HM) and the one made by the code under contract
 * (HM2): each holds what was added to it */
#define NMAP 8
static _ccs_object_template_t HM, HM2;
static ccs_object_t           HMK[NMAP], HMV[NMAP], HM2K[NMAP], HM2V[NMAP];
static int                    HMN, HM2N, HMOOM;
#define v_hm_is2(m) ((void *)(m) == (void *)&HM2)
static int
v_hm_find(ccs_map_t m, ccs_datum_t k)
{
	v_check((void *)m == (void *)&HM || v_hm_is2(m) && HM2.obj.refcount > 0, "a map of handles");
	if (v_hm_is2(m)) {
		for (int j = 0; j < HM2N; j++)
			if (k.type == CCS_DATA_TYPE_OBJECT && HM2K[j] == k.value.o)
				return j;
	} else {
		for (int j = 0; j < HMN; j++)
			if (k.type == CCS_DATA_TYPE_OBJECT && HMK[j] == k.value.o)
				return j;
	}
	return -1;
}
ccs_result_t
ccs_map_exist(ccs_map_t m, ccs_datum_t k, ccs_bool_t *found)
{
	*found = v_hm_find(m, k) >= 0 ? CCS_TRUE : CCS_FALSE;
	return CCS_RESULT_SUCCESS;
}
ccs_result_t
ccs_map_set(ccs_map_t m, ccs_datum_t k, ccs_datum_t v)
{
	v_check((void *)m == (void *)&HM || v_hm_is2(m) && HM2.obj.refcount > 0, "a map of handles");
	v_check(k.type == CCS_DATA_TYPE_OBJECT && (k.flags & CCS_DATUM_FLAG_ID) && v.type == CCS_DATA_TYPE_OBJECT, "handles recorded by identity");
	if (HMOOM == 1 && nd_bool() || HMOOM == 2 && !v_hm_is2(m) || HMOOM == 3 && v_hm_is2(m))
		return CCS_RESULT_ERROR_OUT_OF_MEMORY;
	if (v_hm_is2(m)) {
		v_assume(HM2N < NMAP);
		HM2K[HM2N] = k.value.o, HM2V[HM2N] = v.value.o, HM2N++;
	} else {
		v_assume(HMN < NMAP);
		HMK[HMN] = k.value.o, HMV[HMN] = v.value.o, HMN++;
	}
	return CCS_RESULT_SUCCESS;
}
ccs_result_t
ccs_map_get(ccs_map_t m, ccs_datum_t k, ccs_datum_t *v)
{
	int j = v_hm_find(m, k);
	*v    = ccs_none;
	if (j >= 0)
		*v = ccs_object(v_hm_is2(m) ? HM2V[j] : HMV[j]);
	return CCS_RESULT_SUCCESS;
}
ccs_result_t
ccs_create_map(ccs_map_t *m)
{
	v_check(HM2.obj.refcount == 0, "one map at a time");
	HM2N = 0;
	if (HMOOM == 1 && nd_bool() || HMOOM == 4)
		return CCS_RESULT_ERROR_OUT_OF_MEMORY;
	HM2.obj.type = CCS_OBJECT_TYPE_MAP, HM2.obj.refcount = 1, HM2.data = (void *)&HM2N;
	*m = (ccs_map_t)&HM2;
	return CCS_RESULT_SUCCESS;
}
/* forget the tape (what was read from it must have been copied) */
static void
v_scramble(void)
{
	for (int k = 0; k < NTAPE; k++)
		TAPE[k].s[0] = 'X', TAPE[k].s[1] = 'Y', TAPE[k].s[2] = 0;
}
/* announced and written agree whatever the size functions are */
static void
v_agree(void)
{
	for (int k = 0; k < NLOG; k++)
		if (k < NWR) {
			int a = 0, w = 0;
			if (v_toksize(WR[k].k) != 1 || WR[k].k == VT_U8)
				continue;
			for (int j = 0; j < NLOG; j++) {
				a += j < NANN && v_toksame(&ANN[j], &WR[k]);
				w += j < NWR && v_toksame(&WR[j], &WR[k]);
			}
			v_check(a == w, "the sizes announced are those of what is written");
		}
}
/* start reading arbitrary bytes */
static void
v_arbitrary(uint64_t otype, int64_t count, size_t failat)
{
	HM.obj.type = CCS_OBJECT_TYPE_MAP, HM.obj.refcount = 1, HM.data = (void *)&HMN;
	ARB = 1, HMOOM = 1, FAILAT = failat, ARBCNT = count;
	TAPE[0].k = VT_V, TAPE[0].v = otype;
	if (nd_bool())
		HMK[0] = (ccs_object_t)ARBP[0], HMV[0] = (ccs_object_t)ARBP[0], HMN = 1;
}
/* One way for the reading of arbitrary bytes to go wrong, all other values being
 * arbitrary: the kind and the counts found, the token refused (-1: none), the
 * constructor call that fails (-1: none), the allocation that fails (0: none)
 * and what becomes of handles: 0 no map, 1 recorded, 2 the caller's map is out
 * of memory, 3 the new map is, 4 the new map cannot be made, 5 already known */
struct vcase {
	int     k;
	int64_t n;
	int     f, c, oom, hm;
};
static int CFAILAT = -1, NCTOR, V_CTOR_HIT;
static int
v_ctor_fails(void)
{
	V_CTOR_HIT |= NCTOR == CFAILAT;
	return NCTOR++ == CFAILAT;
}
static _ccs_object_serialize_options_t   SOPTS;
static _ccs_object_deserialize_options_t DOPTS;
typedef ccs_result_t (*v_deser_t)(ccs_object_t *, ccs_serialize_format_t, uint32_t, size_t *, const char **, _ccs_object_deserialize_options_t *);
static size_t VTOTAL;
static void
v_fix(size_t off, uint64_t v)
{
	TAPE[off].k = VT_V, TAPE[off].v = v, TAPE[off].fixed = 1;
}
static void
v_start(uint64_t otype, struct vcase c)
{
	HM.obj.type = CCS_OBJECT_TYPE_MAP, HM.obj.refcount = 1, HM.data = (void *)&HMN;
	ARB = 1, ARBCNT = c.n, HMOOM = c.hm, CFAILAT = c.c;
	FAILAT    = c.f < 0 ? NTAPE : (size_t)c.f;
	HMOOM     = c.hm >= 2 && c.hm <= 4 ? c.hm : 0;
	TAPE[0].k = VT_V, TAPE[0].v = otype;
	if (c.hm == 5)
		HMK[0] = (ccs_object_t)ARBP[0], HMV[0] = (ccs_object_t)ARBP[0], HMN = 1;
	DOPTS.handle_map = c.hm ? (ccs_map_t)&HM : NULL;
}
/* announce and write; VTOTAL is the announced size */
#define V_WRITE(ANNF, SERF, OBJ)                                               \
	do {                                                                   \
		size_t v_bs;                                                   \
		char  *v_b = VBUF;                                             \
		VTOTAL     = 0;                                                \
		v_check(ANNF((ccs_object_t)(OBJ), CCS_SERIALIZE_FORMAT_BINARY, &VTOTAL, &SOPTS) == CCS_RESULT_SUCCESS, "size announced"); \
		size_t v_u = 0;                                                \
		v_check(ANNF((ccs_object_t)(OBJ), (ccs_serialize_format_t)77, &v_u, &SOPTS) < 0, "unknown format refused"); \
		v_assume(VTOTAL <= NTAPE);                                     \
		v_bs = VTOTAL;                                                 \
		NWR = 0;                                                       \
		v_check(SERF((ccs_object_t)(OBJ), CCS_SERIALIZE_FORMAT_BINARY, &v_bs, &v_b, &SOPTS) == CCS_RESULT_SUCCESS, "an object fits the size it announced"); \
		v_check(v_bs == 0 && v_b == VBUF + VTOTAL, "exactly the announced size is written"); \
		v_agree();                                                     \
		v_check(SERF((ccs_object_t)(OBJ), (ccs_serialize_format_t)77, &v_bs, &v_b, &SOPTS) < 0, "unknown format refused"); \
	} while (0)
/* any smaller buffer is refused */
#define V_SHORT(SERF, OBJ)                                                     \
	do {                                                                   \
		size_t v_bs = nd_upto(NTAPE), v_b0 = v_bs;                     \
		char  *v_b  = VBUF;                                            \
		v_assume(v_bs < VTOTAL);                                       \
		NWR = 0;                                                       \
		v_check(SERF((ccs_object_t)(OBJ), CCS_SERIALIZE_FORMAT_BINARY, &v_bs, &v_b, &SOPTS) < 0, "a smaller buffer is refused"); \
		v_check(v_bs <= v_b0, "nothing written past the end of the buffer"); \
	} while (0)
#define V_READ(DESF, T, RET)                                                   \
	do {                                                                   \
		size_t      v_bs = VTOTAL;                                     \
		const char *v_b  = VBUF;                                       \
		HM.obj.type = CCS_OBJECT_TYPE_MAP, HM.obj.refcount = 1, HM.data = (void *)&HMN;        \
		DOPTS.handle_map = (ccs_map_t)&HM;                             \
		v_check(DESF((T *)(RET), CCS_SERIALIZE_FORMAT_BINARY, 0, &v_bs, &v_b, &DOPTS) == CCS_RESULT_SUCCESS, "what was written is read back"); \
		v_check(v_bs == 0 && v_b == VBUF + VTOTAL, "exactly what was written is read"); \
		v_check(UDOBJ == (ccs_object_t) * (RET), "user data goes to the object read"); \
	} while (0)
#define _ccs_serialize_bin_uint8 v_ser_uint8
#define _ccs_serialize_bin_size_uint8 v_ann_uint8
#define _ccs_deserialize_bin_uint8 v_get_uint8
#define _ccs_serialize_bin_int8 v_ser_int8
#define _ccs_serialize_bin_size_int8 v_ann_int8
#define _ccs_deserialize_bin_int8 v_get_int8
#define _ccs_serialize_bin_uint16 v_ser_uint16
#define _ccs_serialize_bin_size_uint16 v_ann_uint16
#define _ccs_deserialize_bin_uint16 v_get_uint16
#define _ccs_serialize_bin_int16 v_ser_int16
#define _ccs_serialize_bin_size_int16 v_ann_int16
#define _ccs_deserialize_bin_int16 v_get_int16
#define _ccs_serialize_bin_uint32 v_ser_uint32
#define _ccs_serialize_bin_size_uint32 v_ann_uint32
#define _ccs_deserialize_bin_uint32 v_get_uint32
#define _ccs_serialize_bin_int32 v_ser_int32
#define _ccs_serialize_bin_size_int32 v_ann_int32
#define _ccs_deserialize_bin_int32 v_get_int32
#define _ccs_serialize_bin_uint64 v_ser_uint64
#define _ccs_serialize_bin_size_uint64 v_ann_uint64
#define _ccs_deserialize_bin_uint64 v_get_uint64
#define _ccs_serialize_bin_uncompressed_uint64 v_ser_uncompressed_uint64
#define _ccs_serialize_bin_size_uncompressed_uint64 v_ann_uncompressed_uint64
#define _ccs_deserialize_bin_uncompressed_uint64 v_get_uncompressed_uint64
#define _ccs_serialize_bin_int64 v_ser_int64
#define _ccs_serialize_bin_size_int64 v_ann_int64
#define _ccs_deserialize_bin_int64 v_get_int64
#define _ccs_serialize_bin_ccs_hash v_ser_ccs_hash
#define _ccs_serialize_bin_size_ccs_hash v_ann_ccs_hash
#define _ccs_deserialize_bin_ccs_hash v_get_ccs_hash
#define _ccs_serialize_bin_ccs_bool v_ser_ccs_bool
#define _ccs_serialize_bin_size_ccs_bool v_ann_ccs_bool
#define _ccs_deserialize_bin_ccs_bool v_get_ccs_bool
#define _ccs_serialize_bin_ccs_int v_ser_ccs_int
#define _ccs_serialize_bin_size_ccs_int v_ann_ccs_int
#define _ccs_deserialize_bin_ccs_int v_get_ccs_int
#define _ccs_serialize_bin_ccs_numeric_type v_ser_ccs_numeric_type
#define _ccs_serialize_bin_size_ccs_numeric_type v_ann_ccs_numeric_type
#define _ccs_deserialize_bin_ccs_numeric_type v_get_ccs_numeric_type
#define _ccs_serialize_bin_ccs_parameter_type v_ser_ccs_parameter_type
#define _ccs_serialize_bin_size_ccs_parameter_type v_ann_ccs_parameter_type
#define _ccs_deserialize_bin_ccs_parameter_type v_get_ccs_parameter_type
#define _ccs_serialize_bin_ccs_datum_flags v_ser_ccs_datum_flags
#define _ccs_serialize_bin_size_ccs_datum_flags v_ann_ccs_datum_flags
#define _ccs_deserialize_bin_ccs_datum_flags v_get_ccs_datum_flags
#define _ccs_serialize_bin_ccs_data_type v_ser_ccs_data_type
#define _ccs_serialize_bin_size_ccs_data_type v_ann_ccs_data_type
#define _ccs_deserialize_bin_ccs_data_type v_get_ccs_data_type
#define _ccs_serialize_bin_ccs_object_type v_ser_ccs_object_type
#define _ccs_serialize_bin_size_ccs_object_type v_ann_ccs_object_type
#define _ccs_deserialize_bin_ccs_object_type v_get_ccs_object_type
#define _ccs_serialize_bin_ccs_scale_type v_ser_ccs_scale_type
#define _ccs_serialize_bin_size_ccs_scale_type v_ann_ccs_scale_type
#define _ccs_deserialize_bin_ccs_scale_type v_get_ccs_scale_type
#define _ccs_serialize_bin_ccs_distribution_type v_ser_ccs_distribution_type
#define _ccs_serialize_bin_size_ccs_distribution_type v_ann_ccs_distribution_type
#define _ccs_deserialize_bin_ccs_distribution_type v_get_ccs_distribution_type
#define _ccs_serialize_bin_ccs_expression_type v_ser_ccs_expression_type
#define _ccs_serialize_bin_size_ccs_expression_type v_ann_ccs_expression_type
#define _ccs_deserialize_bin_ccs_expression_type v_get_ccs_expression_type
#define _ccs_serialize_bin_ccs_objective_type v_ser_ccs_objective_type
#define _ccs_serialize_bin_size_ccs_objective_type v_ann_ccs_objective_type
#define _ccs_deserialize_bin_ccs_objective_type v_get_ccs_objective_type
#define _ccs_serialize_bin_ccs_tuner_type v_ser_ccs_tuner_type
#define _ccs_serialize_bin_size_ccs_tuner_type v_ann_ccs_tuner_type
#define _ccs_deserialize_bin_ccs_tuner_type v_get_ccs_tuner_type
#define _ccs_serialize_bin_ccs_features_tuner_type v_ser_ccs_features_tuner_type
#define _ccs_serialize_bin_size_ccs_features_tuner_type v_ann_ccs_features_tuner_type
#define _ccs_deserialize_bin_ccs_features_tuner_type v_get_ccs_features_tuner_type
#define _ccs_serialize_bin_ccs_tree_space_type v_ser_ccs_tree_space_type
#define _ccs_serialize_bin_size_ccs_tree_space_type v_ann_ccs_tree_space_type
#define _ccs_deserialize_bin_ccs_tree_space_type v_get_ccs_tree_space_type
#define _ccs_serialize_bin_ccs_tree_tuner_type v_ser_ccs_tree_tuner_type
#define _ccs_serialize_bin_size_ccs_tree_tuner_type v_ann_ccs_tree_tuner_type
#define _ccs_deserialize_bin_ccs_tree_tuner_type v_get_ccs_tree_tuner_type
#define _ccs_serialize_bin_ccs_evaluation_result v_ser_ccs_evaluation_result
#define _ccs_serialize_bin_size_ccs_evaluation_result v_ann_ccs_evaluation_result
#define _ccs_deserialize_bin_ccs_evaluation_result v_get_ccs_evaluation_result
#define _ccs_serialize_bin_ccs_float v_ser_ccs_float
#define _ccs_serialize_bin_size_ccs_float v_ann_ccs_float
#define _ccs_deserialize_bin_ccs_float v_get_ccs_float
#define _ccs_serialize_bin_ccs_object v_ser_ccs_object
#define _ccs_serialize_bin_size_ccs_object v_ann_ccs_object
#define _ccs_deserialize_bin_ccs_object v_get_ccs_object
#define _ccs_serialize_bin_string v_ser_string
#define _ccs_serialize_bin_size_string v_ann_string
#define _ccs_deserialize_bin_string v_get_string
#define _ccs_serialize_bin_ccs_blob v_ser_ccs_blob
#define _ccs_serialize_bin_size_ccs_blob v_ann_ccs_blob
#define _ccs_deserialize_bin_ccs_blob v_get_ccs_blob
#define _ccs_serialize_bin_ccs_interval v_ser_ccs_interval
#define _ccs_serialize_bin_size_ccs_interval v_ann_ccs_interval
#define _ccs_deserialize_bin_ccs_interval v_get_ccs_interval
#define _ccs_serialize_bin_ccs_datum v_ser_ccs_datum
#define _ccs_serialize_bin_size_ccs_datum v_ann_ccs_datum
#define _ccs_deserialize_bin_ccs_datum v_get_ccs_datum
#define _ccs_serialize_bin_ccs_object_internal v_ser_ccs_object_internal
#define _ccs_serialize_bin_size_ccs_object_internal v_ann_ccs_object_internal
#define _ccs_deserialize_bin_ccs_object_internal v_get_ccs_object_internal
#define _ccs_serialize_bin_magic_tag v_ser_magic_tag
#define _ccs_serialize_bin_size_magic_tag v_ann_magic_tag
#define _ccs_deserialize_bin_magic_tag v_get_magic_tag
#define _ccs_peek_bin_uint8 v_peek_uint8
#define _ccs_peek_bin_int8 v_peek_int8
#define _ccs_peek_bin_uint16 v_peek_uint16
#define _ccs_peek_bin_int16 v_peek_int16
#define _ccs_peek_bin_uint32 v_peek_uint32
#define _ccs_peek_bin_int32 v_peek_int32
#define _ccs_peek_bin_uint64 v_peek_uint64
#define _ccs_peek_bin_uncompressed_uint64 v_peek_uncompressed_uint64
#define _ccs_peek_bin_int64 v_peek_int64
#define _ccs_peek_bin_ccs_hash v_peek_ccs_hash
#define _ccs_peek_bin_ccs_bool v_peek_ccs_bool
#define _ccs_peek_bin_ccs_int v_peek_ccs_int
#define _ccs_peek_bin_ccs_numeric_type v_peek_ccs_numeric_type
#define _ccs_peek_bin_ccs_parameter_type v_peek_ccs_parameter_type
#define _ccs_peek_bin_ccs_datum_flags v_peek_ccs_datum_flags
#define _ccs_peek_bin_ccs_data_type v_peek_ccs_data_type
#define _ccs_peek_bin_ccs_object_type v_peek_ccs_object_type
#define _ccs_peek_bin_ccs_scale_type v_peek_ccs_scale_type
#define _ccs_peek_bin_ccs_distribution_type v_peek_ccs_distribution_type
#define _ccs_peek_bin_ccs_expression_type v_peek_ccs_expression_type
#define _ccs_peek_bin_ccs_objective_type v_peek_ccs_objective_type
#define _ccs_peek_bin_ccs_tuner_type v_peek_ccs_tuner_type
#define _ccs_peek_bin_ccs_features_tuner_type v_peek_ccs_features_tuner_type
#define _ccs_peek_bin_ccs_tree_space_type v_peek_ccs_tree_space_type
#define _ccs_peek_bin_ccs_tree_tuner_type v_peek_ccs_tree_tuner_type
#define _ccs_peek_bin_ccs_evaluation_result v_peek_ccs_evaluation_result
#define _ccs_peek_bin_ccs_float v_peek_ccs_float
#define _ccs_peek_bin_ccs_object v_peek_ccs_object
#define _ccs_serialize_bin_size v_ser_sizet
#define _ccs_serialize_bin_size_size v_ann_sizet
#define _ccs_deserialize_bin_size v_get_sizet
#define _ccs_object_serialize_user_data_size v_ann_user_data
#define _ccs_object_serialize_user_data v_ser_user_data
#define _ccs_object_deserialize_user_data v_get_user_data
#endif
