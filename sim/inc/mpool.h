/* The real header, but every object goes back to the (checked) heap. */
#include_next "mpool.h"
#undef mpool_malloc
#undef mpool_free
#define mpool_malloc(M, len) malloc(len)
#define mpool_free(M, p) free(p)
