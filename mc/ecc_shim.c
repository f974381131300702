/* Uniform access to the ECC library's public interface; compiled once per build variant. */
#include "ecc/bch.h"
#include "ecc/crc32.h"
#include "ecc/hamming.h"
#include "ecc/gf13.h"
static const struct bch_def *def(int k) { return k == 1 ? &bch_1bit : k == 2 ? &bch_2bit : k == 3 ? &bch_3bit : &bch_4bit; }
unsigned xe_mul(unsigned a, unsigned b) { return gf13_mul(a, b); }
unsigned xe_div(unsigned a, unsigned b) { return gf13_div(a, b); }
unsigned xe_mulx(unsigned a) { return gf13_mulx(a); }
unsigned xe_divx(unsigned a) { return gf13_divx(a); }
#ifndef GF13_NO_TABLES
unsigned xe_exp(unsigned i) { return gf13_exp[i]; }
unsigned xe_log(unsigned i) { return gf13_log[i]; }
#endif
int xe_deg(int k) { return def(k)->degree; }
int xe_eccb(int k) { return def(k)->ecc_bytes; }
unsigned long long xe_gen(int k) { return def(k)->generator; }
int xe_maxchunk(void) { return BCH_MAX_CHUNK_SIZE; }
int xe_maxecc(void) { return BCH_MAX_ECC; }
void xe_bgen(int k, const uint8_t *c, size_t n, uint8_t *e) { bch_generate(def(k), c, n, e); }
int xe_bver(int k, const uint8_t *c, size_t n, const uint8_t *e) { return bch_verify(def(k), c, n, e); }
void xe_brep(int k, uint8_t *c, size_t n, uint8_t *e) { bch_repair(def(k), c, n, e); }
int xe_hmax(void) { return HAMMING_MAX_CHUNK_SIZE; }
int xe_hecc(void) { return HAMMING_ECC_SIZE; }
void xe_hgen(const uint8_t *c, size_t n, uint8_t *e) { hamming_generate(c, n, e); }
unsigned xe_hsyn(const uint8_t *c, size_t n, const uint8_t *e) { return hamming_syndrome(c, n, e); }
int xe_hrep(uint8_t *c, size_t n, unsigned s) { return hamming_repair(c, n, s); }
unsigned xe_crc(const uint8_t *c, size_t n, unsigned k) { return crc32_nand(c, n, k); }
unsigned xe_crcinit(void) { return CRC32_INIT; }
