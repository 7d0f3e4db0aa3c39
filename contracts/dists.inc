/* Shared by the units over distributions: the generator object. */
static struct { _ccs_object_internal_t obj; void *data; } RNGS;
#define RNG ((ccs_rng_t)&RNGS)
static gsl_rng *const GRNG = NULL;
static void
mkrng(void)
{
	_ccs_object_init(&RNGS.obj, CCS_OBJECT_TYPE_RNG, NULL);
	RNGS.data = &RNGS;
}
ccs_result_t
ccs_rng_get_gsl_rng(ccs_rng_t r, gsl_rng **g)
{
	v_check(r == RNG, "the caller's generator is used");
	*g = GRNG;
	return CCS_RESULT_SUCCESS;
}
