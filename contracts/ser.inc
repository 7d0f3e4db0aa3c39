/* Sub-objects by contract, for the units over objects that hold others: SUB[k]
 * is an object written as one token, NEW[k] what reading that token gives.  A
 * sub-object read is alive with one reference and, when handles are recorded,
 * its handle leads to it. */
#ifndef NSUB
#define NSUB 6
#endif
#ifndef NSUBREG /* sub-objects record their handles */
#define NSUBREG 1
#endif
static _ccs_object_template_t SUB[NSUB], NEW[NSUB];
static int                    NNEW;
static ccs_map_t              SUBMAP[NSUB];
static ccs_bool_t             SUBMV[NSUB];
static ccs_result_t
sub_ann(ccs_object_t o, ccs_serialize_format_t f, size_t *cum, _ccs_object_serialize_options_t *opts)
{
	(void)opts;
	v_check(f == CCS_SERIALIZE_FORMAT_BINARY, "sub-objects use the format of the whole");
	*cum += v_ann(v_ptr(VT_SUB, o));
	return CCS_RESULT_SUCCESS;
}
static ccs_result_t
sub_ser(ccs_object_t o, ccs_serialize_format_t f, size_t *bs, char **b, _ccs_object_serialize_options_t *opts)
{
	(void)opts;
	v_check(f == CCS_SERIALIZE_FORMAT_BINARY, "sub-objects use the format of the whole");
	return v_put(v_ptr(VT_SUB, o), bs, b);
}
static _ccs_object_ops_t SUBOPS = {NULL, sub_ann, sub_ser};
static void
sub_init(int k, ccs_object_type_t t)
{
	_ccs_object_init(&SUB[k].obj, t, &SUBOPS);
	SUB[k].data     = (void *)&NNEW;
	NEW[k].obj.type = t;
}
static ccs_result_t
sub_des(ccs_object_type_t t, ccs_object_t *ret, ccs_serialize_format_t f, size_t *bs, const char **b, _ccs_object_deserialize_options_t *opts)
{
	v_check(f == CCS_SERIALIZE_FORMAT_BINARY, "sub-objects use the format of the whole");
	struct vtok *tok = v_take(VT_SUB, bs, b);
	if (!tok)
		return CCS_RESULT_ERROR_NOT_ENOUGH_DATA;
	int k = NNEW;
	if (!ARB) {
		for (k = 0; k < NSUB; k++)
			if (tok->p == (const void *)&SUB[k])
				break;
		v_assume(k < NSUB);
		v_check(NEW[k].obj.type == t && NEW[k].obj.refcount == 0, "each sub-object is read once, as what it is");
	}
	v_assume(k < NSUB);
	NNEW++;
	NEW[k].obj.type = t, NEW[k].obj.refcount = 1, NEW[k].data = (void *)&NNEW;
	SUBMAP[k] = opts->handle_map, SUBMV[k] = opts->map_values;
	if (opts->handle_map && opts->map_values && NSUBREG) {
		ccs_datum_t h = ccs_object((ccs_object_t)&SUB[k]);
		h.flags |= CCS_DATUM_FLAG_ID;
		ccs_bool_t   found;
		ccs_result_t r = ccs_map_exist(opts->handle_map, h, &found);
		if (found)
			r = CCS_RESULT_ERROR_DUPLICATE_HANDLE;
		else
			r = ccs_map_set(opts->handle_map, h, ccs_object((ccs_object_t)&NEW[k]));
		if (r != CCS_RESULT_SUCCESS) {
			NEW[k].obj.refcount = 0;
			return r;
		}
	}
	*ret = (ccs_object_t)&NEW[k];
	return CCS_RESULT_SUCCESS;
}
#define SUB_DES(NAME, T, TYPE)                                                 \
	static ccs_result_t NAME(T *r, ccs_serialize_format_t f, uint32_t v, size_t *bs, const char **b, _ccs_object_deserialize_options_t *o) \
	{                                                                      \
		(void)v;                                                       \
		return sub_des(TYPE, (ccs_object_t *)r, f, bs, b, o);          \
	}
/* every sub-object read: n references */
static int
sub_refs(int32_t n)
{
	for (int k = 0; k < NSUB; k++)
		if (k < NNEW && NEW[k].obj.refcount != n)
			return 0;
	return 1;
}
