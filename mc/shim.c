#include <string.h>
#include "dhara/map.h"
#include "dhara/journal.h"
#include "dhara/nand.h"
#include "dhara/error.h"
#include "shim.h"

int sh_null_err;

static const dhara_error_t to_dh[] = {
	[E_NONE] = DHARA_E_NONE, [E_BAD_BLOCK] = DHARA_E_BAD_BLOCK,
	[E_ECC] = DHARA_E_ECC, [E_TOO_BAD] = DHARA_E_TOO_BAD,
	[E_RECOVER] = DHARA_E_RECOVER, [E_JOURNAL_FULL] = DHARA_E_JOURNAL_FULL,
	[E_NOT_FOUND] = DHARA_E_NOT_FOUND, [E_MAP_FULL] = DHARA_E_MAP_FULL,
	[E_CORRUPT_MAP] = DHARA_E_CORRUPT_MAP
};

static int from_dh(int e)
{
	unsigned i;
	if (e == ERR_UNSET)
		return ERR_UNSET;
	for (i = 0; i < sizeof(to_dh) / sizeof(to_dh[0]); i++)
		if (to_dh[i] == (dhara_error_t)e)
			return (int)i;
	return E_OTHER;
}

#define CALL(expr) do { \
	dhara_error_t e_ = (dhara_error_t)ERR_UNSET; \
	dhara_error_t *ep = sh_null_err ? NULL : &e_; \
	int r_ = (expr); \
	if (err) *err = from_dh((int)e_); \
	return r_; } while (0)

size_t sh_nand_size(void) { return sizeof(struct dhara_nand); }
void sh_nand_set(void *v, int lp, int lb, unsigned nb)
{
	struct dhara_nand *n = v;
	memset(n, 0, sizeof(*n));
	n->log2_page_size = lp; n->log2_ppb = lb; n->num_blocks = nb;
}
size_t sh_map_sizeof(void) { return sizeof(struct dhara_map); }
size_t sh_journal_sizeof(void) { return sizeof(struct dhara_journal); }
uint32_t sh_page_none(void) { return DHARA_PAGE_NONE; }
int sh_meta_size(void) { return DHARA_META_SIZE; }
int sh_cookie_size(void) { return DHARA_COOKIE_SIZE; }
int sh_max_retries(void) { return DHARA_MAX_RETRIES; }

void sh_map_init(void *m, const void *n, uint8_t *b, uint8_t gc) { dhara_map_init(m, n, b, gc); }
int sh_map_resume(void *m, int *err) { CALL(dhara_map_resume(m, ep)); }
void sh_map_clear(void *m) { dhara_map_clear(m); }
uint32_t sh_map_capacity(const void *m) { return dhara_map_capacity(m); }
uint32_t sh_map_size(const void *m) { return dhara_map_size(m); }
int sh_map_find(void *m, uint32_t s, uint32_t *loc, int *err)
{ dhara_page_t p = 0; int r; dhara_error_t e_ = (dhara_error_t)ERR_UNSET;
  r = dhara_map_find(m, s, loc ? &p : NULL, sh_null_err ? NULL : &e_);
  if (err) *err = from_dh((int)e_);
  if (loc) *loc = p;
  return r; }
int sh_map_read(void *m, uint32_t s, uint8_t *d, int *err) { CALL(dhara_map_read(m, s, d, ep)); }
int sh_map_write(void *m, uint32_t s, const uint8_t *d, int *err) { CALL(dhara_map_write(m, s, d, ep)); }
int sh_map_copy_page(void *m, uint32_t a, uint32_t b, int *err) { CALL(dhara_map_copy_page(m, a, b, ep)); }
int sh_map_copy_sector(void *m, uint32_t a, uint32_t b, int *err) { CALL(dhara_map_copy_sector(m, a, b, ep)); }
int sh_map_trim(void *m, uint32_t s, int *err) { CALL(dhara_map_trim(m, s, ep)); }
int sh_map_sync(void *m, int *err) { CALL(dhara_map_sync(m, ep)); }
int sh_map_gc(void *m, int *err) { CALL(dhara_map_gc(m, ep)); }
void *sh_map_journal(void *m) { return &((struct dhara_map *)m)->journal; }

void sh_j_init(void *j, const void *n, uint8_t *b) { dhara_journal_init(j, n, b); }
int sh_j_resume(void *j, int *err) { CALL(dhara_journal_resume(j, ep)); }
uint32_t sh_j_capacity(const void *j) { return dhara_journal_capacity(j); }
uint32_t sh_j_size(const void *j) { return dhara_journal_size(j); }
uint8_t *sh_j_cookie(const void *j) { return dhara_journal_cookie(j); }
uint32_t sh_j_root(const void *j) { return dhara_journal_root(j); }
int sh_j_read_meta(void *j, uint32_t p, uint8_t *b, int *err) { CALL(dhara_journal_read_meta(j, p, b, ep)); }
uint32_t sh_j_peek(void *j) { return dhara_journal_peek(j); }
void sh_j_dequeue(void *j) { dhara_journal_dequeue(j); }
void sh_j_clear(void *j) { dhara_journal_clear(j); }
int sh_j_enqueue(void *j, const uint8_t *d, const uint8_t *m, int *err) { CALL(dhara_journal_enqueue(j, d, m, ep)); }
int sh_j_copy(void *j, uint32_t p, const uint8_t *m, int *err) { CALL(dhara_journal_copy(j, p, m, ep)); }
int sh_j_is_clean(const void *j) { return dhara_journal_is_clean(j); }
int sh_j_in_recovery(const void *j) { return !!dhara_journal_in_recovery(j); }
uint32_t sh_j_next_recoverable(void *j) { return dhara_journal_next_recoverable(j); }
int sh_code(int c) { return (int)to_dh[c]; }
const char *sh_strerror(int e) { return dhara_strerror((dhara_error_t)e); }

static int ret(int code, dhara_error_t *err)
{
	if (!code)
		return 0;
	dhara_set_error(err, to_dh[code]);
	return -1;
}

int dhara_nand_is_bad(const struct dhara_nand *n, dhara_block_t b) { return h_is_bad(n, b); }
void dhara_nand_mark_bad(const struct dhara_nand *n, dhara_block_t b) { h_mark_bad(n, b); }
int dhara_nand_erase(const struct dhara_nand *n, dhara_block_t b, dhara_error_t *err) { return ret(h_erase(n, b), err); }
int dhara_nand_prog(const struct dhara_nand *n, dhara_page_t p, const uint8_t *data, dhara_error_t *err) { return ret(h_prog(n, p, data), err); }
int dhara_nand_is_free(const struct dhara_nand *n, dhara_page_t p) { return h_is_free(n, p); }
int dhara_nand_read(const struct dhara_nand *n, dhara_page_t p, size_t o, size_t l, uint8_t *d, dhara_error_t *err) { return ret(h_read(n, p, o, l, d), err); }
int dhara_nand_copy(const struct dhara_nand *n, dhara_page_t s, dhara_page_t d, dhara_error_t *err) { return ret(h_copy(n, s, d), err); }
