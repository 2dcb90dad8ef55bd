/* Force-included into every PLASMA source: routes the C allocator to the harness. */
#ifndef VF_ALLOC_INC_H
#define VF_ALLOC_INC_H
#include <stdlib.h>
#include <string.h>
#ifdef __cplusplus
extern "C" {
#endif
void *vf_malloc_at(size_t n, const char *file, int line);
void *vf_calloc_at(size_t a, size_t b, const char *file, int line);
void *vf_realloc_at(void *p, size_t n, const char *file, int line);
void vf_free(void *p);
#ifdef __cplusplus
}
#endif
#define malloc(n) vf_malloc_at((n), __FILE__, __LINE__)
#define calloc(a, b) vf_calloc_at((a), (b), __FILE__, __LINE__)
#define realloc(p, n) vf_realloc_at((p), (n), __FILE__, __LINE__)
/* plain references to free (and any other use of the names) are redirected with objcopy */
#endif
