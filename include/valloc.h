/* Allocation contract used by the units: a block of exactly the size asked for
 * or, while V_OOM is set, possibly NULL.  Failure is decided here (and not by
 * CBMC's malloc-may-fail) so that it is part of the replayed input.
 *
 * CBMC represents calloc(1, n) as a byte array, which makes every access to an
 * object block a byte operation.  When the size asked for is that of one of the
 * layouts V_BLK1..6, the same memory is obtained as malloc(sizeof(layout)),
 * which CBMC represents field by field.  The block has exactly the size
 * requested, is zeroed and is tracked for leaks like any other; a code change
 * that lays the block out differently is still analysed exactly (through byte
 * operations, more slowly). */
#ifndef VALLOC_H
#define VALLOC_H
#undef calloc
#undef malloc
#undef realloc
static int V_OOM;
static unsigned V_ALLOCS, V_OOMAT; /* V_OOMAT: that allocation fails */
static int V_HIT; /* an allocation failed */
#ifdef V_CBMC
static inline void *
v_typed(size_t t, int zero)
{
#define V_TRY(T)                                                               \
	if (t == sizeof(T)) {                                                  \
		T *p = (T *)malloc(sizeof(T));                                 \
		T z = {0};                                                     \
		if (zero)                                                      \
			*p  = z;                                               \
		return p;                                                      \
	}
#ifdef V_TYPED_BY_TEXT /* layouts told apart by the text of the size asked for */
	V_TYPED_BY_TEXT
#endif
#ifdef V_ZBLK1 /* layouts of zeroed blocks only */
	if (zero)
		V_TRY(V_ZBLK1)
#endif
#ifdef V_ZBLK2
	if (zero)
		V_TRY(V_ZBLK2)
#endif
#ifdef V_ZBLK3
	if (zero)
		V_TRY(V_ZBLK3)
#endif
#ifdef V_BLK1
	V_TRY(V_BLK1)
#endif
#ifdef V_BLK2
	V_TRY(V_BLK2)
#endif
#ifdef V_BLK3
	V_TRY(V_BLK3)
#endif
#ifdef V_BLK4
	V_TRY(V_BLK4)
#endif
#ifdef V_BLK5
	V_TRY(V_BLK5)
#endif
#ifdef V_BLK6
	V_TRY(V_BLK6)
#endif
	return zero ? calloc(1, t) : malloc(t);
}
#else
#define v_typed(t, zero) ((zero) ? calloc(1, t) : malloc(t))
#endif
static inline void *
v_calloc(size_t n, size_t s)
{
	V_ALLOCS++;
	if (V_OOM && nd_bool() || V_OOMAT && V_ALLOCS == V_OOMAT)
		return V_HIT = 1, NULL;
	return v_typed(n * s, 1);
}
static inline void *
v_malloc(size_t s)
{
	V_ALLOCS++;
	if (V_OOM && nd_bool() || V_OOMAT && V_ALLOCS == V_OOMAT)
		return V_HIT = 1, NULL;
	return v_typed(s, 0);
}
static inline void *
v_realloc(void *p, size_t s)
{
	V_ALLOCS++;
	if (V_OOM && nd_bool() || V_OOMAT && V_ALLOCS == V_OOMAT)
		return V_HIT = 1, NULL;
	return p ? realloc(p, s) : v_typed(s, 0);
}
#ifdef V_REALLOC_WORDS /* realloc of a typed block, word by word */
#ifdef V_CBMC
static inline void *
v_realloc_w(void *p, size_t s)
{
	if (!p)
		return v_realloc(p, s);
	V_ALLOCS++;
	if (V_OOMAT && V_ALLOCS == V_OOMAT)
		return V_HIT = 1, NULL;
	size_t o = __CPROVER_OBJECT_SIZE(p);
	void  *q = v_typed(s, 0);
	for (size_t k = 0; k < (o < s ? o : s) / 8; k++)
		((void **)q)[k] = ((void **)p)[k];
	free(p);
	return q;
}
#else
#define v_realloc_w v_realloc
#endif
#endif
#define calloc v_calloc
#define malloc v_malloc
#define realloc v_realloc
#endif
