/* Abstract contract of uthash (third party): a finite map from keys to
 * elements that keeps insertion order, where a lookup returns the element
 * whose key compares equal or NULL, and an insertion may run out of memory.
 * Included before the sources, it replaces uthash.h (same include guard). */
#ifndef UTHASH_H
#define UTHASH_H
#define V_ABSTRACT_HASH 1
typedef struct UT_hash_handle {
	void       *next;
	const void *key;
	size_t      keylen;
} UT_hash_handle;
typedef struct UT_hash_table_ { int unused; } UT_hash_table;
#ifndef HASH_KEYCMP
#define HASH_KEYCMP(a, b, n) memcmp(a, b, n)
#endif
static inline int v_streq_n(const void *a, size_t na, const void *b, size_t nb)
{
	if (na != nb)
		return 0;
#ifdef V_POINTER_KEYS /* keys of eight bytes are pointers */
	if (na == sizeof(void *))
		return *(void *const *)a == *(void *const *)b;
#endif
	for (size_t i = 0; i < na; i++)
		if (((const char *)a)[i] != ((const char *)b)[i])
			return 0;
	return 1;
}
#ifdef HASH_FUNCTION /* datum keys: equality given by the key comparator */
#ifdef V_DATUM_EQ /* contract of the datum comparator, enforced in C02 */
#define V_KEYEQ(k1, n1, k2, n2) V_DATUM_EQ((const ccs_datum_t *)(k1), (const ccs_datum_t *)(k2))
#else
#define V_KEYEQ(k1, n1, k2, n2) (HASH_KEYCMP(k1, k2, n1) == 0)
#endif
#else
#define V_KEYEQ(k1, n1, k2, n2) v_streq_n(k1, n1, k2, n2)
#endif
#ifndef uthash_nonfatal_oom
#define uthash_nonfatal_oom(obj) do { } while (0)
#endif
#define HASH_FIND(hh, head, keyptr, klen, out)                                 \
	do {                                                                   \
		(out) = (head);                                                \
		while (out) {                                                  \
			if (V_KEYEQ((out)->hh.key, (out)->hh.keylen, keyptr, klen)) \
				break;                                         \
			(out) = (__typeof__(out))(out)->hh.next;               \
		}                                                              \
	} while (0)
#define HASH_ADD_KEYPTR(hh, head, keyptr, klen, add)                           \
	do {                                                                   \
		(add)->hh.next   = NULL;                                       \
		(add)->hh.key    = (keyptr);                                   \
		(add)->hh.keylen = (klen);                                     \
		if (V_HASH_OOM) {                                              \
			uthash_nonfatal_oom(add);                              \
		} else if (!(head)) {                                          \
			(head) = (add);                                        \
		} else {                                                       \
			__typeof__(add) v_l = (head);                          \
			while (v_l->hh.next)                                   \
				v_l = (__typeof__(add))v_l->hh.next;           \
			v_l->hh.next = (add);                                  \
		}                                                              \
	} while (0)
#define HASH_ADD(hh, head, field, klen, add)                                   \
	HASH_ADD_KEYPTR(hh, head, &((add)->field), klen, add)
#define HASH_DELETE(hh, head, del)                                             \
	do {                                                                   \
		if ((head) == (del)) {                                         \
			(head) = (__typeof__(del))(del)->hh.next;              \
		} else {                                                       \
			__typeof__(del) v_l = (head);                          \
			while (v_l->hh.next != (void *)(del))                  \
				v_l = (__typeof__(del))v_l->hh.next;           \
			v_l->hh.next = (del)->hh.next;                         \
		}                                                              \
	} while (0)
#define HASH_DEL(head, del) HASH_DELETE(hh, head, del)
#define HASH_CLEAR(hh, head) do { (head) = NULL; } while (0)
#define HASH_ITER(hh, head, el, tmp)                                           \
	for (((el) = (head)), ((tmp) = (el) ? (__typeof__(el))(el)->hh.next : NULL); (el) != NULL; \
	     ((el) = (tmp)), ((tmp) = (tmp) ? (__typeof__(el))(tmp)->hh.next : NULL))
#define HASH_COUNT(head) v_hash_count((head), (head) ? (size_t)((char *)&(head)->hh - (char *)(head)) : 0)
static inline unsigned v_hash_count(void *head, size_t off)
{
	unsigned n = 0;
	while (head) {
		n++;
		head = ((UT_hash_handle *)((char *)head + off))->next;
	}
	return n;
}
#define HASH_JEN(key, keylen, hashv) do { (hashv) = 0; } while (0)
#ifndef V_HASH_OOM
#define V_HASH_OOM 0
#endif
#endif
