/* C boundary between the C++ explorers and the code under test: the only file
 * that includes dhara's headers is shim.c, so the explorers depend on nothing
 * but the public C API. */
#ifndef SHIM_H_
#define SHIM_H_
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif

enum { E_NONE, E_BAD_BLOCK, E_ECC, E_TOO_BAD, E_RECOVER, E_JOURNAL_FULL,
       E_NOT_FOUND, E_MAP_FULL, E_CORRUPT_MAP, E_OTHER = 99 };
#define ERR_UNSET 77

/* geometry and sizes */
size_t sh_nand_size(void);
void sh_nand_set(void *n, int log2_page, int log2_ppb, unsigned nb);
size_t sh_map_sizeof(void);
size_t sh_journal_sizeof(void);
uint32_t sh_page_none(void);
int sh_meta_size(void);
int sh_cookie_size(void);
int sh_max_retries(void);

/* map API; err receives the E_ code stored (or ERR_UNSET); nullerr passes NULL */
void sh_map_init(void *m, const void *n, uint8_t *buf, uint8_t gc);
int sh_map_resume(void *m, int *err);
void sh_map_clear(void *m);
uint32_t sh_map_capacity(const void *m);
uint32_t sh_map_size(const void *m);
int sh_map_find(void *m, uint32_t s, uint32_t *loc, int *err);
int sh_map_read(void *m, uint32_t s, uint8_t *d, int *err);
int sh_map_write(void *m, uint32_t s, const uint8_t *d, int *err);
int sh_map_copy_page(void *m, uint32_t src, uint32_t dst, int *err);
int sh_map_copy_sector(void *m, uint32_t src, uint32_t dst, int *err);
int sh_map_trim(void *m, uint32_t s, int *err);
int sh_map_sync(void *m, int *err);
int sh_map_gc(void *m, int *err);
void *sh_map_journal(void *m);
extern int sh_null_err;      /* if set, pass a NULL error pointer */

/* journal API */
void sh_j_init(void *j, const void *n, uint8_t *buf);
int sh_j_resume(void *j, int *err);
uint32_t sh_j_capacity(const void *j);
uint32_t sh_j_size(const void *j);
uint8_t *sh_j_cookie(const void *j);
uint32_t sh_j_root(const void *j);
int sh_j_read_meta(void *j, uint32_t p, uint8_t *buf, int *err);
uint32_t sh_j_peek(void *j);
void sh_j_dequeue(void *j);
void sh_j_clear(void *j);
int sh_j_enqueue(void *j, const uint8_t *data, const uint8_t *meta, int *err);
int sh_j_copy(void *j, uint32_t p, const uint8_t *meta, int *err);
int sh_j_is_clean(const void *j);
int sh_j_in_recovery(const void *j);
uint32_t sh_j_next_recoverable(void *j);
const char *sh_strerror(int e);
int sh_code(int shim_code);

/* implemented by the harness; return 0 or an E_ code */
int h_is_bad(const void *n, uint32_t b);
void h_mark_bad(const void *n, uint32_t b);
int h_erase(const void *n, uint32_t b);
int h_prog(const void *n, uint32_t p, const uint8_t *data);
int h_is_free(const void *n, uint32_t p);
int h_read(const void *n, uint32_t p, size_t off, size_t len, uint8_t *data);
int h_copy(const void *n, uint32_t src, uint32_t dst);
#ifdef __cplusplus
}
#endif
#endif
