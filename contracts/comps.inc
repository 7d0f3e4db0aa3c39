/* Component distributions by contract: component k has dimension CDIM[k], the
 * types and bounds of its tables, and its sampling operations write, for value i
 * and dimension j, the number TAG(k, i, j) in the place they are asked to and
 * nothing else. */
#define NC 3
#define TAG(k, i, j) (1000 * ((k) + 1) + 10 * (int64_t)(i) + (j))
struct comp_s {
	_ccs_distribution_common_data_t common;
	int                             k;
};
static struct _ccs_distribution_s C[NC];
static struct comp_s              CD[NC];
static ccs_numeric_type_t         CT[NC][2];
static ccs_interval_t             CB[NC][2];
static unsigned                   CCALLS[NC];
static int                        CFAIL;
static ccs_result_t
c_bounds(_ccs_distribution_data_t *d, ccs_interval_t *r)
{
	struct comp_s *c = (struct comp_s *)d;
	for (size_t j = 0; j < c->common.dimension; j++)
		r[j] = CB[c->k][j];
	return CCS_RESULT_SUCCESS;
}
static ccs_result_t
c_strided(_ccs_distribution_data_t *d, ccs_rng_t r, size_t n, size_t st, ccs_numeric_t *v)
{
	struct comp_s *c = (struct comp_s *)d;
	v_check(r == RNG, "the caller's generator is used");
	CCALLS[c->k]++;
	if (CFAIL && nd_bool())
		return CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL;
	for (size_t i = 0; i < n; i++)
		for (size_t j = 0; j < c->common.dimension; j++)
			v[i * st + j].i = TAG(c->k, i, j);
	return CCS_RESULT_SUCCESS;
}
static ccs_result_t
c_samples(_ccs_distribution_data_t *d, ccs_rng_t r, size_t n, ccs_numeric_t *v)
{
	return c_strided(d, r, n, ((struct comp_s *)d)->common.dimension, v);
}
static ccs_result_t
c_soa(_ccs_distribution_data_t *d, ccs_rng_t r, size_t n, ccs_numeric_t **v)
{
	struct comp_s *c = (struct comp_s *)d;
	v_check(r == RNG, "the caller's generator is used");
	CCALLS[c->k]++;
	if (CFAIL && nd_bool())
		return CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL;
	for (size_t j = 0; j < c->common.dimension; j++)
		if (v[j])
			for (size_t i = 0; i < n; i++)
				v[j][i].i = TAG(c->k, i, j);
	return CCS_RESULT_SUCCESS;
}
static _ccs_distribution_ops_t c_ops = {{NULL, NULL, NULL}, &c_samples, &c_bounds, &c_strided, &c_soa};
static void
comp(int k, size_t dim)
{
	_ccs_object_init(&C[k].obj, CCS_OBJECT_TYPE_DISTRIBUTION, (_ccs_object_ops_t *)&c_ops);
	C[k].data                = (_ccs_distribution_data_t *)&CD[k];
	CD[k].k                  = k;
	CD[k].common.type        = CCS_DISTRIBUTION_TYPE_UNIFORM;
	CD[k].common.dimension   = dim;
	CD[k].common.data_types  = CT[k];
	for (int j = 0; j < 2; j++) {
		CT[k][j]       = nd_bool() ? CCS_NUMERIC_TYPE_INT : CCS_NUMERIC_TYPE_FLOAT;
		CB[k][j].type  = CT[k][j];
		CB[k][j].lower.i = nd_i64(), CB[k][j].upper.i = nd_i64();
		CB[k][j].lower_included = nd_bool() ? CCS_TRUE : CCS_FALSE;
		CB[k][j].upper_included = nd_bool() ? CCS_TRUE : CCS_FALSE;
	}
}
static int
same_iv(const ccs_interval_t *a, const ccs_interval_t *b)
{
	return a->type == b->type && a->lower.i == b->lower.i && a->upper.i == b->upper.i && a->lower_included == b->lower_included && a->upper_included == b->upper_included;
}
