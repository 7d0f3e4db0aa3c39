/* Shared spec vocabulary: datums, object shells. */
#ifndef VSPEC_H
#define VSPEC_H
static inline ccs_datum_t
mk_datum(void)
{
	ccs_datum_t d;
	memset(&d, 0, sizeof(d));
	d.value.i = nd_i64();
	d.type    = (ccs_data_type_t)nd_i32();
	d.flags   = nd_u32();
	return d;
}
/* a datum of a valid kind without pointers */
static inline ccs_datum_t
mk_scalar(void)
{
	ccs_datum_t d;
	memset(&d, 0, sizeof(d));
	int k = (int)nd_upto(4);
	d.type = k == 0 ? CCS_DATA_TYPE_NONE : k == 1 ? CCS_DATA_TYPE_INT :
	         k == 2 ? CCS_DATA_TYPE_FLOAT : k == 3 ? CCS_DATA_TYPE_BOOL :
	                  CCS_DATA_TYPE_INACTIVE;
	if (d.type == CCS_DATA_TYPE_FLOAT)
		d.value.f = nd_f64();
	else if (d.type == CCS_DATA_TYPE_BOOL)
		d.value.i = nd_bool();
	else if (d.type == CCS_DATA_TYPE_INT)
		d.value.i = nd_i64();
	d.flags = CCS_DATUM_FLAG_DEFAULT;
	return d;
}
static inline int
datum_same(const ccs_datum_t *a, const ccs_datum_t *b)
{
	return a->value.i == b->value.i && a->type == b->type &&
	       a->flags == b->flags;
}
static inline int
is_inactive(const ccs_datum_t *a)
{
	return a->type == CCS_DATA_TYPE_INACTIVE && a->value.i == 0 &&
	       a->flags == CCS_DATUM_FLAG_DEFAULT;
}
static inline int
is_none(const ccs_datum_t *a)
{
	return a->type == CCS_DATA_TYPE_NONE && a->value.i == 0 &&
	       a->flags == CCS_DATUM_FLAG_DEFAULT;
}
static inline int
iv_in_i(const ccs_interval_t *I, int64_t x)
{
	return (I->lower.i < x || (I->lower_included && I->lower.i == x)) &&
	       (x < I->upper.i || (I->upper_included && I->upper.i == x));
}
static inline int
iv_in_f(const ccs_interval_t *I, double x)
{
	return (I->lower.f < x || (I->lower_included && I->lower.f == x)) &&
	       (x < I->upper.f || (I->upper_included && I->upper.f == x));
}
static inline int
iv_in(const ccs_interval_t *I, const ccs_numeric_t *x)
{
	return I->type == CCS_NUMERIC_TYPE_FLOAT ? iv_in_f(I, x->f) :
	                                           iv_in_i(I, x->i);
}
static inline void
mk_interval(ccs_interval_t *I, ccs_numeric_type_t t)
{
	memset(I, 0, sizeof(*I));
	I->type = t;
	if (t == CCS_NUMERIC_TYPE_INT) {
		I->lower.i = nd_i64();
		I->upper.i = nd_i64();
	} else {
		I->lower.f = nd_f64();
		I->upper.f = nd_f64();
		v_assume(!v_isnan(I->lower.f) && !v_isnan(I->upper.f));
	}
	I->lower_included = nd_bool();
	I->upper_included = nd_bool();
}
/* every object starts with this header */
static inline void
mk_shell(void *o, ccs_object_type_t t, void *ops, void *data)
{
	_ccs_object_template_t *x = (_ccs_object_template_t *)o;
	_ccs_object_init(&x->obj, t, (_ccs_object_ops_t *)ops);
	x->data = data;
}
#endif
