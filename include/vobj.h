/* Reference counting by contract (the code of ccs_retain_object and
 * ccs_release_object is under contract in vc_object.c): one reference more, one
 * reference less, never released below zero. */
#ifndef VOBJ_H
#define VOBJ_H
#ifndef V_ON_ZERO /* what the last release does, where a unit follows it */
#define V_ON_ZERO(o)
#endif
ccs_result_t
ccs_retain_object(ccs_object_t o)
{
	v_check(o != NULL && ((_ccs_object_template_t *)o)->obj.refcount > 0, "retained object is alive");
	((_ccs_object_template_t *)o)->obj.refcount++;
	return CCS_RESULT_SUCCESS;
}
ccs_result_t
ccs_release_object(ccs_object_t o)
{
	v_check(o != NULL && ((_ccs_object_template_t *)o)->obj.refcount > 0, "released object is alive");
	((_ccs_object_template_t *)o)->obj.refcount--;
	if (((_ccs_object_template_t *)o)->obj.refcount == 0) {
		V_ON_ZERO(o);
	}
	return CCS_RESULT_SUCCESS;
}
#define REFS(o) (((_ccs_object_template_t *)(o))->obj.refcount)
#endif
