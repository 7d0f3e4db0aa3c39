/* src/configuration_space.c with its memory and hashes by contract; see valloc.h
 * and vhash.h. */
#include "vcommon.h"
#define V_POINTER_KEYS
static unsigned V_HADDS, V_HOOMAT;
#define V_HASH_OOM (V_HOOMAT && ++V_HADDS == V_HOOMAT)
#include "vhash.h"
#include "cconfigspace_internal.h"
#include "configuration_space_internal.h"
#include "vobj.h"
#define NPMAX 3
struct blk_cs { struct _ccs_configuration_space_s s; struct _ccs_configuration_space_data_s d; char name[3]; };
#define OK(r) ((r) == CCS_RESULT_SUCCESS)
struct blk_dw1 { _ccs_distribution_wrapper_t w; size_t i[1]; };
struct blk_dw2 { _ccs_distribution_wrapper_t w; size_t i[2]; };
struct blk_dw3 { _ccs_distribution_wrapper_t w; size_t i[3]; };
struct blk_sd { _ccs_distribution_wrapper_t *d[3], *a[3]; size_t w[3]; };
struct blk_pw { _ccs_parameter_wrapper_cs_t w[8]; };
struct blk_sz { size_t i[8]; };
struct blk_ex { ccs_expression_t e[8]; };
struct blk_pa1 { ccs_parameter_t p[1]; size_t i[1]; };
struct blk_pa2 { ccs_parameter_t p[2]; size_t i[2]; };
struct blk_pa3 { ccs_parameter_t p[3]; size_t i[3]; };
#pragma pack(push, 1)
struct blk_csp { struct _ccs_configuration_space_s s; struct _ccs_configuration_space_data_s d; char name[3]; };
#pragma pack(pop)
static int V_PTR64; /* arrays of eight words hold expressions */
#define V_TYPED_BY_TEXT                                                        \
	if (V_KIND == 'U')                                                     \
		V_TRY(UT_array)                                                \
	if (V_KIND == 'v')                                                     \
		V_TRY(struct blk_sd)                                           \
	if (V_KIND == '_')                                                     \
		V_TRY(struct blk_dw1)                                          \
	if (V_KIND == '_')                                                     \
		V_TRY(struct blk_dw2)                                          \
	if (V_KIND == '_')                                                     \
		V_TRY(struct blk_dw3)                                          \
	if (V_KIND == '_')                                                     \
		V_TRY(_ccs_parameter_index_hash_t)                             \
	if (V_PTR64)                                                           \
		V_TRY(struct blk_ex)
#define V_REALLOC_WORDS
#ifdef V_CBMC
/* copies of the types in use, field by field */
static inline void *
v_memcpy_cs(void *d, const void *s, size_t n)
{
	if (n == sizeof(_ccs_parameter_wrapper_cs_t))
		*(_ccs_parameter_wrapper_cs_t *)d = *(const _ccs_parameter_wrapper_cs_t *)s;
	else if (n == 8 && V_PTR64)
		*(ccs_expression_t *)d = *(const ccs_expression_t *)s;
	else if (n == 8)
		*(size_t *)d = *(const size_t *)s;
	else
		v_memcpy(d, s, n);
	return d;
}
static inline void *
v_memset_cs(void *d, int c, size_t n)
{
	UT_array z = {0};
	if (n == sizeof(UT_array) && c == 0)
		*(UT_array *)d = z;
	else
		v_memset(d, c, n);
	return d;
}
#undef memcpy
#define memcpy v_memcpy_cs
#undef memset
#define memset v_memset_cs
#endif
/* qsort (C library): sorts by the order given */
static void
v_qsort(void *b, size_t n, size_t sz, int (*cmp)(const void *, const void *))
{
	size_t *a = (size_t *)b;
	v_check(sz == sizeof(size_t), "arrays of positions are sorted");
	for (size_t i = 1; i < n; i++)
		for (size_t j = i; j > 0 && cmp(&a[j - 1], &a[j]) > 0; j--) {
			size_t t = a[j];
			a[j] = a[j - 1], a[j - 1] = t;
		}
}
#define qsort v_qsort
#include "valloc_fwd.h"
#include "configuration_space.c"
struct blk_li1 { struct _parameter_list_s l[1]; };
struct blk_li2 { struct _parameter_list_s l[2]; };
struct blk_li3 { struct _parameter_list_s l[3]; };
#define V_ZBLK1 struct blk_csp
#define V_ZBLK2 struct blk_li3
#define V_ZBLK3 struct blk_li2
#define V_BLK1 struct blk_pw
#define V_BLK2 struct blk_sz
#define V_BLK3 struct blk_pa1
#define V_BLK4 struct blk_pa2
#define V_BLK5 struct blk_pa3
#include "valloc.h"
