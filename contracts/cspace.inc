/* What the units over configuration spaces share: parameters, distributions,
 * expressions, configurations and the random generator by contract. */
#define NP 4
struct vp { _ccs_object_internal_t obj; void *data; ccs_parameter_type_t type; const char *name; int nodist, noval; ccs_datum_t def; };
struct vd { _ccs_object_internal_t obj; void *data; size_t dim; int fails; };
struct vx { _ccs_object_internal_t obj; void *data; size_t n; int p[3]; uint8_t tab[8]; int bad; };
static struct vp P[NP];
static struct vd DG[NP], DD[NP], RG; /* distributions given, default ones */
static struct vx X[NP];
static int       RNGFAIL, NRNG;
static int       DUMMY;
ccs_result_t
ccs_parameter_get_type(ccs_parameter_t p, ccs_parameter_type_t *t)
{
	*t = ((struct vp *)p)->type;
	return CCS_RESULT_SUCCESS;
}
ccs_result_t
ccs_parameter_get_name(ccs_parameter_t p, const char **n)
{
	*n = ((struct vp *)p)->name;
	return CCS_RESULT_SUCCESS;
}
ccs_result_t
ccs_parameter_get_default_distribution(ccs_parameter_t p, ccs_distribution_t *d)
{
	struct vp *x = (struct vp *)p;
	v_check(x->obj.refcount > 0, "parameter alive");
	if (x->nodist)
		return CCS_RESULT_ERROR_OUT_OF_MEMORY;
	DD[x - P].obj.refcount++;
	*d = (ccs_distribution_t)&DD[x - P];
	return CCS_RESULT_SUCCESS;
}
ccs_result_t
ccs_distribution_get_dimension(ccs_distribution_t d, size_t *n)
{
	struct vd *x = (struct vd *)d;
	if (x->obj.type != CCS_OBJECT_TYPE_DISTRIBUTION)
		return CCS_RESULT_ERROR_INVALID_OBJECT;
	*n = x->dim;
	return CCS_RESULT_SUCCESS;
}
ccs_result_t
ccs_create_rng(ccs_rng_t *r)
{
	if (RNGFAIL)
		return CCS_RESULT_ERROR_OUT_OF_MEMORY;
	RG.obj.refcount++, NRNG++;
	*r = (ccs_rng_t)&RG;
	return CCS_RESULT_SUCCESS;
}
static void
base(void)
{
	static const char *const nm[NP] = {"a", "ab", "b", "a"};
	for (int k = 0; k < NP; k++) {
		P[k].obj.type = CCS_OBJECT_TYPE_PARAMETER, P[k].obj.refcount = 1, P[k].data = &DUMMY, P[k].type = CCS_PARAMETER_TYPE_NUMERICAL, P[k].name = nm[k];
		DG[k].obj.type = DD[k].obj.type = CCS_OBJECT_TYPE_DISTRIBUTION, DG[k].obj.refcount = 1, DG[k].data = DD[k].data = &DUMMY, DG[k].dim = DD[k].dim = 1;
		X[k].obj.type = CCS_OBJECT_TYPE_EXPRESSION, X[k].obj.refcount = 1, X[k].data = &DUMMY;
	}
	RG.obj.type = CCS_OBJECT_TYPE_RNG, RG.data = &DUMMY;
}
