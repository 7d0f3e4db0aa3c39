/* valloc.h for sources that declare their own layouts: include this first, then
 * the source, then valloc.h with the layouts. */
static inline void *v_calloc(size_t n, size_t s);
static inline void *v_malloc(size_t s);
static inline void *v_realloc(void *p, size_t s);
#define calloc v_calloc
#ifdef V_TYPED_BY_TEXT
static char V_KIND;
static inline void *v_malloc_k(size_t s, char k) { V_KIND = k; void *p = v_malloc(s); V_KIND = 0; return p; }
#define malloc(s) v_malloc_k((s), sizeof(#s) > 8 ? (#s)[7] : 0)
#else
#define malloc v_malloc
#endif
#ifdef V_REALLOC_WORDS
static inline void *v_realloc_w(void *p, size_t s);
#define realloc v_realloc_w
#else
#define realloc v_realloc
#endif
