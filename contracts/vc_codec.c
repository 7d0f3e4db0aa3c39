/* Contracts for the wire codec of scalars, strings, blobs, intervals and data:
 * src/cconfigspace_internal.h. Every buffer is placed so that the first byte
 * past its announced size is outside the object: an access out of the announced
 * bounds is a failed obligation. */
//@property C03
//@assume the host is little endian (the branch taken by ccs_is_little_endian on this platform)
#include "vcommon.h"
#define CAP 12
/* T(name, type, generator, equality) */
static double   g_f64(void) { return nd_f64(); }
#define EQI(a, b) ((a) == (b))
static int
eqf(double a, double b)
{
	uint64_t x, y;
	memcpy(&x, &a, 8);
	memcpy(&y, &b, 8);
	return x == y || (v_isnan(a) && v_isnan(b));
}
/* round trip, exact size, refusal of short buffers in both directions */
#define RT(NAME, TYPE, GEN, EQ)                                                                    \
	do {                                                                                       \
		char        _b[CAP];                                                               \
		TYPE        _x = (TYPE)GEN, _y, _z;                                                \
		size_t      _sz = _ccs_serialize_bin_size_##NAME(_x);                              \
		size_t      _cap = nd_upto(CAP), _bs = _cap;                                       \
		char       *_p0 = _b + (CAP - _cap), *_p = _p0;                                    \
		v_check(_sz >= 1 && _sz <= 10, #NAME ": size within the format's bounds");         \
		ccs_result_t _r = _ccs_serialize_bin_##NAME(_x, &_bs, &_p);                        \
		v_check(IFF(_r == CCS_RESULT_SUCCESS, _cap >= _sz), #NAME ": encoded exactly when the announced size fits"); \
		v_check(_r == CCS_RESULT_SUCCESS || _r == CCS_RESULT_ERROR_NOT_ENOUGH_DATA, #NAME ": short buffer refused as such"); \
		if (_r == CCS_RESULT_SUCCESS) {                                                    \
			v_check(_p == _p0 + _sz && _bs == _cap - _sz, #NAME ": encoding occupies exactly the announced size"); \
			size_t _n = nd_upto(CAP);                                                  \
			v_assume(_n <= _cap);                                                      \
			char   _c[CAP];                                                            \
			/* only the first n bytes of the encoding are given to the decoder */      \
			for (size_t _i = 0; _i < CAP; _i++)                                        \
				if (_i < _n)                                                       \
					_c[CAP - _n + _i] = _p0[_i];                               \
			const char *_q0 = _c + (CAP - _n), *_q = _q0;                              \
			size_t      _m = _n;                                                       \
			_r = _ccs_peek_bin_##NAME(&_z, &_m, &_q);                                  \
			v_check(IFF(_r == CCS_RESULT_SUCCESS, _n >= _sz), #NAME ": peek succeeds exactly on a complete encoding"); \
			v_check(_q == _q0 && _m == _n, #NAME ": peek consumes nothing");           \
			if (_r == CCS_RESULT_SUCCESS)                                              \
				v_check(EQ(_z, _x), #NAME ": peek reads the value back");          \
			_r = _ccs_deserialize_bin_##NAME(&_y, &_m, &_q);                           \
			v_check(IFF(_r == CCS_RESULT_SUCCESS, _n >= _sz), #NAME ": decoding succeeds exactly on a complete encoding"); \
			v_check(_r == CCS_RESULT_SUCCESS || _r == CCS_RESULT_ERROR_NOT_ENOUGH_DATA, #NAME ": truncated encoding refused as such"); \
			if (_r == CCS_RESULT_SUCCESS)                                              \
				v_check(EQ(_y, _x) && _q == _q0 + _sz && _m == _n - _sz, #NAME ": decoding gives the value back and consumes exactly its encoding"); \
		}                                                                                  \
	} while (0)
/* any bytes: decode or refuse, inside the buffer, never consuming more than given */
#define ARB(NAME, TYPE)                                                                            \
	do {                                                                                       \
		char        _b[CAP];                                                               \
		TYPE        _y, _z;                                                                \
		for (int _i = 0; _i < CAP; _i++)                                                   \
			_b[_i] = (char)nd_u64();                                                   \
		size_t      _n = nd_upto(CAP), _m = _n;                                            \
		const char *_q0 = _b + (CAP - _n), *_q = _q0;                                      \
		ccs_result_t _rp = _ccs_peek_bin_##NAME(&_z, &_m, &_q);                            \
		v_check(_m == _n && _q == _q0, #NAME ": peek consumes nothing");                   \
		ccs_result_t _r = _ccs_deserialize_bin_##NAME(&_y, &_m, &_q);                      \
		v_check(IFF(_r == CCS_RESULT_SUCCESS, _rp == CCS_RESULT_SUCCESS), #NAME ": peek and decode agree"); \
		v_check(_r <= CCS_RESULT_SUCCESS, #NAME ": refusal is an error");                  \
		if (_r == CCS_RESULT_SUCCESS)                                                      \
			v_check(_m < _n && _q == _q0 + (_n - _m), #NAME ": consumed bytes are bytes of the buffer"); \
	} while (0)
#define ALL_SMALL(M)                                                                               \
	M(uint8, uint8_t) M(int8, int8_t) M(uint16, uint16_t) M(int16, int16_t)
#define ALL_32(M)                                                                                  \
	M(uint32, uint32_t) M(int32, int32_t) M(ccs_hash, ccs_hash_t) M(ccs_bool, ccs_bool_t)
#define ALL_ENUM1(M)                                                                               \
	M(ccs_numeric_type, ccs_numeric_type_t) M(ccs_parameter_type, ccs_parameter_type_t)        \
	M(ccs_datum_flags, ccs_datum_flags_t) M(ccs_data_type, ccs_data_type_t)                    \
	M(ccs_object_type, ccs_object_type_t) M(ccs_scale_type, ccs_scale_type_t)                  \
	M(ccs_distribution_type, ccs_distribution_type_t)
#define ALL_ENUM2(M)                                                                               \
	M(ccs_expression_type, ccs_expression_type_t) M(ccs_objective_type, ccs_objective_type_t)  \
	M(ccs_tuner_type, ccs_tuner_type_t) M(ccs_features_tuner_type, ccs_features_tuner_type_t)  \
	M(ccs_tree_space_type, ccs_tree_space_type_t) M(ccs_tree_tuner_type, ccs_tree_tuner_type_t) \
	M(ccs_evaluation_result, ccs_evaluation_result_t)
#define RTI(NAME, TYPE) RT(NAME, TYPE, nd_u64(), EQI);
#define ARBI(NAME, TYPE) ARB(NAME, TYPE);
//@unit codec_small unwind=14
void
h_codec_small(void)
{
	ALL_SMALL(RTI)
	V_REACH("small");
}
//@unit codec_32 unwind=14
void
h_codec_32(void)
{
	ALL_32(RTI)
	V_REACH("32");
}
//@unit codec_enum1 unwind=14
void
h_codec_enum1(void)
{
	ALL_ENUM1(RTI)
	V_REACH("enum1");
}
//@unit codec_enum2 unwind=14
void
h_codec_enum2(void)
{
	ALL_ENUM2(RTI)
	V_REACH("enum2");
}
//@unit codec_u64 unwind=14
void
h_codec_u64(void)
{
	RTI(uint64, uint64_t)
	V_REACH("u64");
}
//@unit codec_i64 unwind=14
void
h_codec_i64(void)
{
	RTI(int64, int64_t)
	V_REACH("i64");
}
//@unit codec_int unwind=14
void
h_codec_int(void)
{
	RTI(ccs_int, ccs_int_t)
	V_REACH("int");
}
//@unit codec_fixed unwind=14
void
h_codec_fixed(void)
{
	RTI(uncompressed_uint64, uint64_t)
	RT(ccs_float, ccs_float_t, g_f64(), eqf);
	V_REACH("fixed");
}
//@unit codec_object unwind=14 funcs=_ccs_serialize_bin_ccs_object,_ccs_deserialize_bin_ccs_object,_ccs_serialize_bin_size_ccs_object
void
h_codec_object(void)
{
	/* a handle is 64 bits of identity; carried through the pointer type */
	char         b[CAP];
	uint64_t     w = nd_u64();
	ccs_object_t o, o2;
	memcpy(&o, &w, 8);
	size_t sz = _ccs_serialize_bin_size_ccs_object(o), cap = nd_upto(CAP), bs = cap;
	char  *p0 = b + (CAP - cap), *p = p0;
	ccs_result_t r = _ccs_serialize_bin_ccs_object(o, &bs, &p);
	v_check(IFF(r == CCS_RESULT_SUCCESS, cap >= sz), "handle: encoded exactly when it fits");
	if (r == CCS_RESULT_SUCCESS) {
		const char *q = p0;
		size_t      m = cap;
		v_check(p == p0 + sz && bs == cap - sz, "handle: encoding occupies exactly the announced size");
		r = _ccs_deserialize_bin_ccs_object(&o2, &m, &q);
		v_check(r == CCS_RESULT_SUCCESS && (uint64_t)o2 == (uint64_t)o && m == cap - sz && q == p0 + sz, "handle: decoding gives the handle back");
	}
	V_REACH("object");
}
//@unit codec_arb_a unwind=14 prop=C05
void
h_codec_arb_a(void)
{
	ALL_SMALL(ARBI)
	ALL_32(ARBI)
	V_REACH("arb a");
}
//@unit codec_arb_b unwind=14 prop=C05
void
h_codec_arb_b(void)
{
	ARBI(uint64, uint64_t)
	ARBI(int64, int64_t)
	ARBI(ccs_int, ccs_int_t)
	V_REACH("arb b");
}
//@unit codec_arb_c unwind=14 prop=C05
void
h_codec_arb_c(void)
{
	ARBI(uncompressed_uint64, uint64_t)
	ARBI(ccs_float, ccs_float_t)
	ARBI(ccs_object, ccs_object_t)
	ALL_ENUM1(ARBI)
	ALL_ENUM2(ARBI)
	V_REACH("arb c");
}
/* strings and blobs */
#define SCAP 8
//@unit codec_string unwind=12 bounded="strings of up to 3 characters, every character value" funcs=_ccs_serialize_bin_string,_ccs_deserialize_bin_string,_ccs_serialize_bin_size_string,_ccs_serialize_bin_size,_ccs_deserialize_bin_size
void
h_codec_string(void)
{
	char        s[4], b[SCAP];
	const char *t;
	for (int i = 0; i < 4; i++)
		s[i] = (char)nd_u64();
	s[3]       = 0;
	size_t len = strlen(s), sz = _ccs_serialize_bin_size_string(s);
	size_t cap = nd_upto(SCAP), bs = cap;
	char  *p0 = b + (SCAP - cap), *p = p0;
	v_check(sz == len + 2, "short string: length byte, characters, terminator");
	ccs_result_t r = _ccs_serialize_bin_string(s, &bs, &p);
	v_check(IFF(r == CCS_RESULT_SUCCESS, cap >= sz), "string: encoded exactly when it fits");
	if (r == CCS_RESULT_SUCCESS) {
		v_check(p == p0 + sz && bs == cap - sz, "string: encoding occupies exactly the announced size");
		const char *q0 = p0, *q = q0;
		size_t      n = nd_upto(SCAP), m = n;
		v_assume(n <= cap);
		r = _ccs_deserialize_bin_string(&t, &m, &q);
		v_check(IFF(r == CCS_RESULT_SUCCESS, n >= sz), "string: decoded exactly when complete");
		if (r == CCS_RESULT_SUCCESS) {
			v_check(q == q0 + sz && m == n - sz, "string: decoding consumes exactly the encoding");
			v_check(t >= p0 && t + len + 1 <= p0 + sz && strcmp(t, s) == 0, "string: decoding gives the string back");
		}
	}
	V_REACH("string");
}
//@unit codec_string_arb unwind=14 prop=C05 bounded="buffers of up to 12 bytes" funcs=_ccs_deserialize_bin_string,_ccs_deserialize_bin_size,_ccs_deserialize_bin_ccs_blob,_ccs_deserialize_bin_magic_tag
void
h_codec_string_arb(void)
{
	char        b[CAP], tag[4];
	const char *t;
	_ccs_blob_t bl;
	for (int i = 0; i < CAP; i++)
		b[i] = (char)nd_u64();
	size_t       n = nd_upto(CAP), m = n;
	const char  *q0 = b + (CAP - n), *q = q0;
	ccs_result_t r = _ccs_deserialize_bin_string(&t, &m, &q);
	v_check(r <= CCS_RESULT_SUCCESS, "string: refusal is an error");
	if (r == CCS_RESULT_SUCCESS) {
		v_check(m < n && q == q0 + (n - m) && t > q0 && t < q0 + n, "string: inside the buffer");
		v_check(strlen(t) < (size_t)(q - t), "string: terminated inside its own encoding");
	}
	m = n;
	q = q0;
	r = _ccs_deserialize_bin_ccs_blob(&bl, &m, &q);
	if (r == CCS_RESULT_SUCCESS)
		v_check(m < n && q == q0 + (n - m) && (const char *)bl.blob > q0 && (const char *)bl.blob + bl.sz == q, "blob: inside the buffer");
	m = n;
	q = q0;
	r = _ccs_deserialize_bin_magic_tag(tag, &m, &q);
	v_check(IFF(r == CCS_RESULT_SUCCESS, n >= 4), "tag: read exactly when there");
	if (r == CCS_RESULT_SUCCESS)
		v_check(m == n - 4 && q == q0 + 4 && memcmp(tag, q0, 4) == 0, "tag: four bytes");
	V_REACH("string arb");
}
//@unit codec_blob unwind=12 bounded="blobs of up to 4 bytes" funcs=_ccs_serialize_bin_ccs_blob,_ccs_deserialize_bin_ccs_blob,_ccs_serialize_bin_size_ccs_blob,_ccs_serialize_bin_magic_tag
void
h_codec_blob(void)
{
	char        s[4], b[SCAP], tag[4];
	_ccs_blob_t x, y;
	for (int i = 0; i < 4; i++)
		s[i] = (char)nd_u64();
	x.sz      = nd_upto(4);
	x.blob    = s;
	size_t sz = _ccs_serialize_bin_size_ccs_blob(&x), cap = nd_upto(SCAP), bs = cap;
	char  *p0 = b + (SCAP - cap), *p = p0;
	ccs_result_t r = _ccs_serialize_bin_ccs_blob(&x, &bs, &p);
	v_check(IFF(r == CCS_RESULT_SUCCESS, cap >= sz), "blob: encoded exactly when it fits");
	if (r == CCS_RESULT_SUCCESS) {
		v_check(p == p0 + sz && bs == cap - sz, "blob: encoding occupies exactly the announced size");
		const char *q = p0;
		size_t      m = cap;
		r = _ccs_deserialize_bin_ccs_blob(&y, &m, &q);
		v_check(r == CCS_RESULT_SUCCESS && m == cap - sz && q == p0 + sz && y.sz == x.sz, "blob: decoding consumes exactly the encoding");
		for (size_t i = 0; i < 4; i++)
			if (i < x.sz)
				v_check(((const char *)y.blob)[i] == s[i], "blob: decoding gives the bytes back");
	}
	p  = p0;
	bs = cap;
	r  = _ccs_serialize_bin_magic_tag(_ccs_magic_tag, &bs, &p);
	v_check(IFF(r == CCS_RESULT_SUCCESS, cap >= 4), "tag: written exactly when it fits");
	if (r == CCS_RESULT_SUCCESS) {
		const char *q = p0;
		size_t      m = cap;
		v_check(p == p0 + 4 && bs == cap - 4 && _ccs_serialize_bin_size_magic_tag(_ccs_magic_tag) == 4, "tag: four bytes");
		v_check(_ccs_deserialize_bin_magic_tag(tag, &m, &q) == CCS_RESULT_SUCCESS && memcmp(tag, _ccs_magic_tag, 4) == 0, "tag: read back");
	}
	V_REACH("blob");
}
/* intervals */
#define ICAP 40
static void
rt_interval(ccs_numeric_type_t t)
{
	ccs_interval_t x, y;
	char           b[ICAP];
	x.type = t;
	if (t == CCS_NUMERIC_TYPE_FLOAT) {
		x.lower.f = nd_f64();
		x.upper.f = nd_f64();
	} else {
		x.lower.i = nd_i64();
		x.upper.i = nd_i64();
		/* lengths are decided per integer by codec_int: keep the offsets small */
		v_assume(x.lower.i >= -8192 && x.lower.i < 8192 && x.upper.i >= -8192 && x.upper.i < 8192);
	}
	x.lower_included = nd_bool() ? CCS_TRUE : CCS_FALSE;
	x.upper_included = nd_bool() ? CCS_TRUE : CCS_FALSE;
	size_t sz = _ccs_serialize_bin_size_ccs_interval(&x), cap = nd_upto(ICAP), bs = cap;
	char  *p0 = b, *p = p0;
	ccs_result_t r = _ccs_serialize_bin_ccs_interval(&x, &bs, &p);
	v_check(IFF(r == CCS_RESULT_SUCCESS, cap >= sz), "interval: encoded exactly when it fits");
	if (r == CCS_RESULT_SUCCESS) {
		v_check(p == p0 + sz && bs == cap - sz, "interval: encoding occupies exactly the announced size");
		const char *q = p0;
		size_t      m = sz;
		r = _ccs_deserialize_bin_ccs_interval(&y, &m, &q);
		v_check(r == CCS_RESULT_SUCCESS && m == 0 && q == p0 + sz, "interval: decoding consumes exactly the encoding");
		v_check(y.type == x.type && !y.lower_included == !x.lower_included && !y.upper_included == !x.upper_included, "interval: kind and ends read back");
		v_check(t == CCS_NUMERIC_TYPE_FLOAT ? eqf(y.lower.f, x.lower.f) && eqf(y.upper.f, x.upper.f) : y.lower.i == x.lower.i && y.upper.i == x.upper.i, "interval: bounds read back");
	}
}
//@unit codec_interval_i unwind=14 bounded="bounds in [-8192, 8192) (the integer codec itself: all values)" funcs=_ccs_serialize_bin_ccs_interval,_ccs_deserialize_bin_ccs_interval,_ccs_serialize_bin_size_ccs_interval
void
h_codec_interval_i(void)
{
	rt_interval(CCS_NUMERIC_TYPE_INT);
	V_REACH("interval int");
}
//@unit codec_interval_f unwind=14 funcs=_ccs_serialize_bin_ccs_interval,_ccs_deserialize_bin_ccs_interval,_ccs_serialize_bin_size_ccs_interval
void
h_codec_interval_f(void)
{
	rt_interval(CCS_NUMERIC_TYPE_FLOAT);
	V_REACH("interval float");
}
/* data */
#define DCAP 12
static void
rt_datum(ccs_datum_t d)
{
	char   b[DCAP];
	size_t sz = _ccs_serialize_bin_size_ccs_datum(d), cap = nd_upto(DCAP), bs = cap;
	char  *p0 = b + (DCAP - cap), *p = p0;
	ccs_datum_t  y;
	ccs_result_t r = _ccs_serialize_bin_ccs_datum(d, &bs, &p);
	v_check(IFF(r == CCS_RESULT_SUCCESS, cap >= sz), "datum: encoded exactly when it fits");
	if (r != CCS_RESULT_SUCCESS)
		return;
	v_check(p == p0 + sz && bs == cap - sz, "datum: encoding occupies exactly the announced size");
	const char *q = p0;
	size_t      m = cap;
	r = _ccs_deserialize_bin_ccs_datum(&y, &m, &q);
	v_check(r == CCS_RESULT_SUCCESS && m == cap - sz && q == p0 + sz, "datum: decoding consumes exactly the encoding");
	v_check(y.type == d.type, "datum: kind read back");
	switch (d.type) {
	case CCS_DATA_TYPE_INT:
		v_check(y.value.i == d.value.i, "datum: integer read back");
		break;
	case CCS_DATA_TYPE_BOOL:
		v_check(!y.value.i == !d.value.i && (y.value.i == CCS_TRUE || y.value.i == CCS_FALSE), "datum: boolean read back");
		break;
	case CCS_DATA_TYPE_FLOAT:
		v_check(eqf(y.value.f, d.value.f), "datum: float read back");
		break;
	case CCS_DATA_TYPE_STRING:
		v_check(strcmp(y.value.s, d.value.s) == 0, "datum: string read back");
		v_check(y.flags & CCS_DATUM_FLAG_TRANSIENT, "datum: a decoded string borrows the buffer");
		break;
	case CCS_DATA_TYPE_OBJECT:
		v_check((uint64_t)y.value.o == (uint64_t)d.value.o, "datum: handle read back");
		v_check(y.flags & CCS_DATUM_FLAG_ID, "datum: a decoded handle is an identifier, not a reference");
		break;
	default:
		v_check(ccs_datum_cmp(y, d) == 0, "datum: constant read back");
	}
}
//@unit codec_datum_scalar unwind=14 funcs=_ccs_serialize_bin_ccs_datum,_ccs_deserialize_bin_ccs_datum,_ccs_serialize_bin_size_ccs_datum
void
h_codec_datum_scalar(void)
{
	rt_datum(ccs_none);
	rt_datum(ccs_inactive);
	rt_datum(ccs_bool(nd_bool() ? CCS_TRUE : CCS_FALSE));
	rt_datum(ccs_float(nd_f64()));
	V_REACH("datum scalar");
}
//@unit codec_datum_int unwind=14 funcs=_ccs_serialize_bin_ccs_datum,_ccs_deserialize_bin_ccs_datum,_ccs_serialize_bin_size_ccs_datum
void
h_codec_datum_int(void)
{
	rt_datum(ccs_int(nd_i64()));
	V_REACH("datum int");
}
//@unit codec_datum_ref unwind=14 bounded="strings of up to 3 characters" funcs=_ccs_serialize_bin_ccs_datum,_ccs_deserialize_bin_ccs_datum,_ccs_serialize_bin_size_ccs_datum
void
h_codec_datum_ref(void)
{
	char s[4];
	for (int i = 0; i < 4; i++)
		s[i] = (char)nd_u64();
	s[3] = 0;
	rt_datum(ccs_string(s));
	uint64_t     w = nd_u64();
	ccs_object_t o;
	memcpy(&o, &w, 8);
	rt_datum(ccs_object(o));
	V_REACH("datum ref");
}
//@unit codec_datum_arb unwind=14 prop=C05 bounded="buffers of up to 12 bytes (no scalar encoding is longer)" funcs=_ccs_deserialize_bin_ccs_datum
void
h_codec_datum_arb(void)
{
	char        b[DCAP];
	ccs_datum_t y;
	for (int i = 0; i < DCAP; i++)
		b[i] = (char)nd_u64();
	size_t       n = nd_upto(DCAP), m = n;
	const char  *q0 = b + (DCAP - n), *q = q0;
	ccs_result_t r = _ccs_deserialize_bin_ccs_datum(&y, &m, &q);
	v_check(r <= CCS_RESULT_SUCCESS, "datum: refusal is an error");
	if (r == CCS_RESULT_SUCCESS) {
		v_check(m < n && q == q0 + (n - m), "datum: consumed bytes are bytes of the buffer");
		v_check(y.type == CCS_DATA_TYPE_NONE || y.type == CCS_DATA_TYPE_INT || y.type == CCS_DATA_TYPE_FLOAT || y.type == CCS_DATA_TYPE_BOOL || y.type == CCS_DATA_TYPE_STRING || y.type == CCS_DATA_TYPE_INACTIVE || y.type == CCS_DATA_TYPE_OBJECT, "datum: a known kind");
		if (y.type == CCS_DATA_TYPE_STRING)
			v_check(y.value.s > q0 && y.value.s < q0 + n && strlen(y.value.s) < (size_t)(q - y.value.s) && (y.flags & CCS_DATUM_FLAG_TRANSIENT), "datum: string inside the buffer, marked as borrowed");
		if (y.type == CCS_DATA_TYPE_OBJECT)
			v_check(y.flags & CCS_DATUM_FLAG_ID, "datum: handle from the wire is never a reference");
	}
	V_REACH("datum arb");
}
//@unit codec_interval_arb unwind=14 prop=C05 bounded="buffers of up to 24 bytes" funcs=_ccs_deserialize_bin_ccs_interval
void
h_codec_interval_arb(void)
{
	char           b[24];
	ccs_interval_t y;
	for (int i = 0; i < 24; i++)
		b[i] = (char)nd_u64();
	size_t       n = nd_upto(24), m = n;
	const char  *q0 = b + (24 - n), *q = q0;
	ccs_result_t r = _ccs_deserialize_bin_ccs_interval(&y, &m, &q);
	v_check(r <= CCS_RESULT_SUCCESS, "interval: refusal is an error");
	if (r == CCS_RESULT_SUCCESS)
		v_check(m < n && q == q0 + (n - m), "interval: consumed bytes are bytes of the buffer");
	V_REACH("interval arb");
}
