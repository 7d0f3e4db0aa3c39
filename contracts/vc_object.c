/* Contracts for object lifetime, user data and the serialization entry points:
 * src/cconfigspace.c. */
//@property C12
//@assume a reference count stays below 2^31-1
//@assume the per-type operations behind _ccs_object_ops_t are the ones under contract in their own units
#define V_WITH_CCS
#include "vcommon.h"
#ifdef V_CBMC
/* realloc of nothing is malloc (the callback array of up to 8 callbacks); the
 * growth of a non empty array is outside the bound */
static void *
v_realloc(void *p, size_t n)
{
	v_assume(p == NULL);
	return malloc(n);
}
#define realloc v_realloc
#endif
#include "cconfigspace.c"
#undef realloc
static int   n_del, n_cb, del_ok;
static void *cb_order[4];
static ccs_object_t the_obj;
static ccs_result_t
s_del(ccs_object_t o)
{
	v_check(o == the_obj, "the object itself is deleted");
	n_del++;
	del_ok = n_cb;
	return CCS_RESULT_SUCCESS;
}
static void
s_cb(ccs_object_t o, void *ud)
{
	v_check(o == the_obj, "destroy callback gets its object");
	v_check(n_del == 0, "destroy callbacks run before the object is deleted");
	v_check(n_cb < 4, "no more calls than callbacks");
	cb_order[n_cb++] = ud;
}
static size_t body_n;
static int    body_fail;
/* serialization of an object, by contract: body_n bytes, or an error */
static ccs_result_t
s_size(ccs_object_t o, ccs_serialize_format_t f, size_t *sz, _ccs_object_serialize_options_t *opts)
{
	(void)f;
	(void)opts;
	v_check(o == the_obj, "sized object");
	*sz += body_n;
	return CCS_RESULT_SUCCESS;
}
static ccs_result_t
s_ser(ccs_object_t o, ccs_serialize_format_t f, size_t *bs, char **b, _ccs_object_serialize_options_t *opts)
{
	(void)f;
	(void)opts;
	v_check(o == the_obj, "serialized object");
	CCS_REFUTE(body_fail, CCS_RESULT_ERROR_INVALID_OBJECT);
	CCS_REFUTE(*bs < body_n, CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
	for (size_t i = 0; i < 3; i++)
		if (i < body_n)
			(*b)[i] = (char)(65 + i);
	*bs -= body_n;
	*b += body_n;
	return CCS_RESULT_SUCCESS;
}
static _ccs_object_ops_t s_ops = {&s_del, &s_size, &s_ser};
static _ccs_object_template_t *
mk(int32_t refs)
{
	_ccs_object_template_t *o = (_ccs_object_template_t *)malloc(sizeof(*o));
	v_assume(o != NULL);
	_ccs_object_init(&o->obj, CCS_OBJECT_TYPE_RNG, &s_ops);
	o->obj.refcount = refs;
	o->data         = NULL;
	the_obj         = (ccs_object_t)o;
	n_del = n_cb = 0;
	return o;
}
//@unit obj_retain funcs=ccs_retain_object,ccs_release_object,ccs_object_get_refcount unwind=3 flags="--memory-leak-check --no-malloc-may-fail"
void
h_obj_retain(void)
{
	int32_t r = nd_i32(), g = nd_i32();
	v_assume(r < INT32_MAX);
	_ccs_object_template_t *o = mk(r);
	ccs_result_t            e = ccs_retain_object((ccs_object_t)o);
	v_check(IFF(e == CCS_RESULT_SUCCESS, r > 0), "retained exactly when alive");
	v_check(ccs_object_get_refcount((ccs_object_t)o, &g) == CCS_RESULT_SUCCESS && g == (r > 0 ? r + 1 : r), "one reference more");
	v_check(n_del == 0 && n_cb == 0, "retaining destroys nothing");
	if (r > 0) {
		v_check(ccs_release_object((ccs_object_t)o) == CCS_RESULT_SUCCESS && o->obj.refcount == r && n_del == 0, "releasing one of several references destroys nothing");
	} else
		v_check(ccs_release_object((ccs_object_t)o) < 0 && n_del == 0 && o->obj.refcount == r, "releasing a dead object is refused");
	v_check(ccs_retain_object(NULL) < 0 && ccs_release_object(NULL) < 0, "no object refused");
	v_check(ccs_object_get_refcount(NULL, &g) < 0 && ccs_object_get_refcount((ccs_object_t)o, NULL) < 0, "bad arguments refused");
	free(o);
	V_REACH("retain");
}
//@unit obj_destroy funcs=ccs_release_object,ccs_object_set_destroy_callback unwind=6 bounded="up to 3 destroy callbacks" flags="--memory-leak-check --no-malloc-may-fail"
static void
destroy(int k, int extra)
{
	_ccs_object_template_t *o = mk(1);
	int                     x[3];
	v_check(ccs_object_set_destroy_callback((ccs_object_t)o, NULL, NULL) < 0, "no callback refused");
	v_check(ccs_object_set_destroy_callback(NULL, &s_cb, NULL) < 0, "no object refused");
	for (int i = 0; i < k; i++)
		v_check(ccs_object_set_destroy_callback((ccs_object_t)o, &s_cb, x + i) == CCS_RESULT_SUCCESS, "callback registered");
	if (extra) {
		v_check(ccs_retain_object((ccs_object_t)o) == CCS_RESULT_SUCCESS, "retained");
		v_check(ccs_release_object((ccs_object_t)o) == CCS_RESULT_SUCCESS && n_del == 0 && n_cb == 0, "still referenced: not destroyed");
	}
	v_check(ccs_release_object((ccs_object_t)o) == CCS_RESULT_SUCCESS, "released");
	v_check(n_del == 1 && del_ok == k && n_cb == k, "last release: every callback once, then deleted once");
	for (int i = 0; i < k; i++) {
		int seen = 0;
		for (int j = 0; j < k; j++)
			if (cb_order[j] == (void *)(x + i))
				seen++;
		v_check(seen == 1, "each callback called with its own data");
	}
}
void
h_obj_destroy(void)
{
	destroy(0, 1);
	destroy(1, 0);
	destroy(3, 1);
	V_REACH("destroy");
}
//@unit obj_data funcs=ccs_object_get_type,ccs_object_set_user_data,ccs_object_get_user_data,ccs_object_set_serialize_callback unwind=3 flags="--no-malloc-may-fail" prop=C12,C14
void
h_obj_data(void)
{
	_ccs_object_template_t *o = mk(1);
	int                     a;
	void                   *d;
	ccs_object_type_t       t;
	o->obj.type = (ccs_object_type_t)nd_i32();
	v_check(ccs_object_get_type((ccs_object_t)o, &t) == CCS_RESULT_SUCCESS && t == o->obj.type, "type");
	v_check(ccs_object_get_type(NULL, &t) < 0 && ccs_object_get_type((ccs_object_t)o, NULL) < 0, "bad arguments refused");
	v_check(ccs_object_get_user_data((ccs_object_t)o, &d) == CCS_RESULT_SUCCESS && d == NULL, "no user data at first");
	v_check(ccs_object_set_user_data((ccs_object_t)o, &a) == CCS_RESULT_SUCCESS, "user data set");
	v_check(ccs_object_get_user_data((ccs_object_t)o, &d) == CCS_RESULT_SUCCESS && d == &a, "user data read back");
	v_check(ccs_object_set_user_data(NULL, &a) < 0 && ccs_object_get_user_data(NULL, &d) < 0 && ccs_object_get_user_data((ccs_object_t)o, NULL) < 0, "bad arguments refused");
	v_check(ccs_object_set_serialize_callback((ccs_object_t)o, (ccs_object_serialize_callback_t)&s_cb, &a) == CCS_RESULT_SUCCESS && o->obj.serialize_callback == (ccs_object_serialize_callback_t)&s_cb && o->obj.serialize_user_data == &a, "serialize callback set");
	v_check(ccs_object_set_serialize_callback(NULL, (ccs_object_serialize_callback_t)&s_cb, &a) < 0, "no object refused");
	v_check(o->obj.refcount == 1, "references unchanged");
	v_check(ccs_none.type == CCS_DATA_TYPE_NONE && ccs_inactive.type == CCS_DATA_TYPE_INACTIVE && ccs_true.type == CCS_DATA_TYPE_BOOL && ccs_true.value.i == CCS_TRUE && ccs_false.type == CCS_DATA_TYPE_BOOL && ccs_false.value.i == CCS_FALSE, "constants");
	V_REACH("data");
}
/* header: announced size, round trip, refusal of anything else */
#define HCAP 16
//@unit obj_header prop=C03,C05 unwind=12 funcs=_ccs_serialize_header,_ccs_deserialize_header,_ccs_serialize_header_size
void
h_obj_header(void)
{
	char     b[HCAP];
	size_t   cap = nd_upto(HCAP), bs = cap, size = nd_u64(), s2 = 0;
	uint32_t v = 0;
	char    *p0 = b + (HCAP - cap), *p = p0;
	size_t   hs = _ccs_serialize_header_size(CCS_SERIALIZE_FORMAT_BINARY);
	v_check(hs <= HCAP, "header fits the harness");
	ccs_result_t r = _ccs_serialize_header(CCS_SERIALIZE_FORMAT_BINARY, &bs, &p, size);
	v_check(IFF(r == CCS_RESULT_SUCCESS, cap >= hs), "header encoded exactly when it fits");
	if (r == CCS_RESULT_SUCCESS) {
		v_check(p == p0 + hs && bs == cap - hs, "header occupies exactly its size");
		const char *q = p0;
		size_t      m = cap;
		v_check(_ccs_deserialize_header(CCS_SERIALIZE_FORMAT_BINARY, &m, &q, &s2, &v) == CCS_RESULT_SUCCESS && s2 == size && v == CCS_SERIALIZATION_API_VERSION, "header read back");
		v_check(q == p0 + hs && m == cap - hs, "header consumed");
	}
	ccs_serialize_format_t f = (ccs_serialize_format_t)nd_i32();
	v_assume(f != CCS_SERIALIZE_FORMAT_BINARY);
	const char *q = b;
	size_t      m = HCAP;
	p  = b;
	bs = HCAP;
	v_check(_ccs_serialize_header(f, &bs, &p, size) < 0 && _ccs_deserialize_header(f, &m, &q, &s2, &v) < 0, "unknown format refused");
	V_REACH("header");
}
//@unit obj_header_arb prop=C05 unwind=17 funcs=_ccs_deserialize_header
void
h_obj_header_arb(void)
{
	char     b[HCAP];
	size_t   n = nd_upto(HCAP), m = n, s = 0;
	uint32_t v = 0;
	for (int i = 0; i < HCAP; i++)
		b[i] = (char)nd_u64();
	const char  *q0 = b + (HCAP - n), *q = q0;
	ccs_result_t r = _ccs_deserialize_header(CCS_SERIALIZE_FORMAT_BINARY, &m, &q, &s, &v);
	v_check(r <= CCS_RESULT_SUCCESS, "refusal is an error");
	if (r == CCS_RESULT_SUCCESS) {
		v_check(m < n && q == q0 + (n - m), "consumed bytes are bytes of the buffer");
		v_check(memcmp(q0, _ccs_magic_tag, 4) == 0 && v <= CCS_SERIALIZATION_API_VERSION, "only tagged data of a known version is accepted");
	}
	V_REACH("header arb");
}
//@unit obj_serialize prop=C04 unwind=12 bounded="an object body of up to 3 bytes" funcs=ccs_object_serialize,_ccs_object_serialize_size,_ccs_object_serialize_memory,_ccs_object_serialize_memory_with_opts,_ccs_object_serialize_size_with_opts,_ccs_object_serialize_options flags="--no-malloc-may-fail"
void
h_obj_serialize(void)
{
	_ccs_object_template_t *o = mk(1);
	char                    b[20];
	size_t                  sz = 0, cap = nd_upto(20), s2 = 0;
	uint32_t                v = 0;
	body_n    = nd_upto(3);
	body_fail = nd_bool();
	size_t hs = _ccs_serialize_header_size(CCS_SERIALIZE_FORMAT_BINARY);
	v_check(ccs_object_serialize((ccs_object_t)o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_SIZE, &sz, CCS_SERIALIZE_OPTION_END) == CCS_RESULT_SUCCESS && sz == hs + body_n, "size: header and body");
	char        *p = b + (20 - cap);
	ccs_result_t r = ccs_object_serialize((ccs_object_t)o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, cap, p, CCS_SERIALIZE_OPTION_END);
	v_check(IFF(r == CCS_RESULT_SUCCESS, !body_fail && cap >= sz), "written exactly when the announced size fits");
	if (r == CCS_RESULT_SUCCESS) {
		const char *q = p;
		size_t      m = cap;
		v_check(_ccs_deserialize_header(CCS_SERIALIZE_FORMAT_BINARY, &m, &q, &s2, &v) == CCS_RESULT_SUCCESS && s2 == sz, "header announces the whole size");
		for (size_t i = 0; i < 3; i++)
			if (i < body_n)
				v_check(q[i] == (char)(65 + i), "body follows the header");
	}
	v_check(ccs_object_serialize(NULL, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_SIZE, &sz, CCS_SERIALIZE_OPTION_END) < 0, "no object refused");
	v_check(o->obj.refcount == 1, "references unchanged");
	V_REACH("serialize");
}
/* user data: written by the object's callback, else by the option's, else empty */
static size_t ud_n;
static int    ud_calls, ud_fail;
static void  *ud_expect;
static ccs_result_t
s_ud(ccs_object_t o, size_t sz, void *data, size_t *sz_ret, void *cbd)
{
	v_check(o == the_obj && cbd == ud_expect, "serialize callback gets its object and data");
	if (ud_fail)
		return CCS_RESULT_ERROR_INVALID_OBJECT;
	if (sz_ret)
		*sz_ret = ud_n;
	if (data) {
		v_check(sz == ud_n, "callback is given the size it asked for");
		for (size_t i = 0; i < 3; i++)
			if (i < ud_n)
				((char *)data)[i] = (char)(97 + i);
	}
	ud_calls++;
	return CCS_RESULT_SUCCESS;
}
static size_t got_n;
static int    got_calls, got_fail;
static ccs_result_t
s_get(ccs_object_t o, size_t sz, const void *data, void *cbd)
{
	v_check(o == the_obj && cbd == ud_expect, "deserialize callback gets its object and data");
	got_calls++;
	got_n = sz;
	for (size_t i = 0; i < 3; i++)
		if (i < sz)
			v_check(((const char *)data)[i] == (char)(97 + i), "deserialize callback gets the bytes written");
	return got_fail ? CCS_RESULT_ERROR_INVALID_OBJECT : CCS_RESULT_SUCCESS;
}
//@unit obj_user_data prop=C04 unwind=12 bounded="user data of up to 3 bytes" funcs=_ccs_object_serialize_user_data,_ccs_object_serialize_user_data_size,_ccs_object_deserialize_user_data flags="--no-malloc-may-fail"
void
h_obj_user_data(void)
{
	_ccs_object_template_t           *o     = mk(1);
	_ccs_object_serialize_options_t   opts  = {NULL, NULL, NULL};
	_ccs_object_deserialize_options_t dopts = {NULL, CCS_TRUE, NULL, NULL, NULL, NULL, NULL};
	int                               x, y, z;
	char                              b[6];
	int own = nd_bool(), opt = nd_bool(), has = nd_bool(), dc = nd_bool();
	if (own) {
		o->obj.serialize_callback  = &s_ud;
		o->obj.serialize_user_data = &x;
	}
	if (opt) {
		opts.serialize_callback  = &s_ud;
		opts.serialize_user_data = &y;
	}
	if (has)
		o->obj.user_data = &z;
	ud_expect = own ? &x : &y;
	ud_n      = nd_upto(3);
	ud_fail   = nd_bool();
	size_t n  = has && (own || opt) ? ud_n : 0, sz = 0, cap = nd_upto(6), bs = cap;
	int    f  = has && (own || opt) && ud_fail;
	ccs_result_t r = _ccs_object_serialize_user_data_size((ccs_object_t)o, CCS_SERIALIZE_FORMAT_BINARY, &sz, &opts);
	v_check(IFF(r == CCS_RESULT_SUCCESS, !f), "an error of the callback is reported");
	v_check(f || sz == n + 1, "user data: length and bytes");
	char *p0 = b + (6 - cap), *p = p0;
	r = _ccs_object_serialize_user_data((ccs_object_t)o, CCS_SERIALIZE_FORMAT_BINARY, &bs, &p, &opts);
	v_check(IFF(r == CCS_RESULT_SUCCESS, !f && cap >= n + 1), "user data written exactly when it fits");
	if (r == CCS_RESULT_SUCCESS) {
		v_check(p == p0 + n + 1 && bs == cap - (n + 1), "user data occupies exactly the announced size");
		if (dc) {
			dopts.deserialize_callback  = &s_get;
			dopts.deserialize_user_data = &y;
			ud_expect                   = &y;
		}
		const char *q = p0;
		size_t      m = cap;
		r = _ccs_object_deserialize_user_data((ccs_object_t)o, CCS_SERIALIZE_FORMAT_BINARY, 1, &m, &q, &dopts);
		v_check(r == CCS_RESULT_SUCCESS && m == bs && q == p, "user data consumed");
		v_check(got_calls == (dc && n > 0) && (!got_calls || got_n == n), "user data handed over");
	}
	V_REACH("user data");
}
//@unit obj_user_data_arb prop=C05 unwind=12 bounded="buffers of up to 11 bytes" funcs=_ccs_object_deserialize_user_data flags="--no-malloc-may-fail"
static ccs_result_t
s_any(ccs_object_t o, size_t sz, const void *data, void *cbd)
{
	(void)cbd;
	(void)o;
	v_check(sz > 0, "callback given data");
	char first = ((const char *)data)[0], last = ((const char *)data)[sz - 1];
	(void)first;
	(void)last;
	return CCS_RESULT_SUCCESS;
}
void
h_obj_user_data_arb(void)
{
	_ccs_object_template_t           *o     = mk(1);
	_ccs_object_deserialize_options_t dopts = {NULL, CCS_TRUE, NULL, NULL, NULL, NULL, NULL};
	char                              b[11];
	for (int i = 0; i < 11; i++)
		b[i] = (char)nd_u64();
	if (nd_bool())
		dopts.deserialize_callback = &s_any;
	size_t       n = nd_upto(11), m = n;
	const char  *q0 = b + (11 - n), *q = q0;
	ccs_result_t r = _ccs_object_deserialize_user_data((ccs_object_t)o, CCS_SERIALIZE_FORMAT_BINARY, 1, &m, &q, &dopts);
	v_check(r <= CCS_RESULT_SUCCESS, "refusal is an error");
	if (r == CCS_RESULT_SUCCESS)
		v_check(m < n && q == q0 + (n - m), "consumed bytes are bytes of the buffer");
	V_REACH("user data arb");
}
