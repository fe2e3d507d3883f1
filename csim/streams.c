/* Gives the check of C04 the C streams under fixed names, with their context sizes. */
#include <string.h>
#include "inner.h"
#include "katrng.h"

size_t vs_size(int kind)
{
	switch (kind) {
	case 0: return sizeof(inner_shake256_context);
	case 1: return sizeof(inner_keccak256_prng_ctx);
	case 2: return sizeof(AES_XOF_struct);
	case 3: return sizeof(prng);
	case 4: return sizeof(SHA3_CTX);
	}
	return 0;
}
/* SHAKE256 */
void vs_shake_init(void *c) { inner_shake256_init(c); }
void vs_shake_in(void *c, const void *d, size_t n) { inner_shake256_inject(c, d, n); }
void vs_shake_flip(void *c) { inner_shake256_flip(c); }
void vs_shake_out(void *c, void *d, size_t n) { inner_shake256_extract(c, d, n); }
void vs_shake_point(void *c, uint16_t *x, unsigned logn) { Zf(hash_to_point_vartime)(c, x, logn); }
void vs_shake_point_ct(void *c, uint16_t *x, unsigned logn)
{
	uint8_t tmp[2 * 1024 * 2];
	Zf(hash_to_point_ct)(c, x, logn, tmp);
}
/* Keccak-256 PRNG */
int vs_kp_init(void *c) { return inner_keccak256_init(c); }
int vs_kp_in(void *c, const void *d, size_t n) { return inner_keccak256_inject(c, d, n); }
int vs_kp_flip(void *c) { return inner_keccak256_flip(c); }
int vs_kp_out(void *c, void *d, size_t n) { return inner_keccak256_extract(c, d, n); }
void vs_kp_point(void *c, uint16_t *x, unsigned logn) { Zf(keccak_hash_to_point_vartime)(c, x, logn); }
/* AES seed expander */
int vs_se_init(void *c, unsigned char *seed, unsigned char *div, unsigned long maxlen) { return seedexpander_init(c, seed, div, maxlen); }
int vs_se_out(void *c, unsigned char *x, unsigned long n) { return seedexpander(c, x, n); }
/* ChaCha20 PRNG */
void vs_cc_init(void *c, void *shake) { Zf(prng_init)(c, shake); }
void vs_cc_out(void *c, void *d, size_t n) { Zf(prng_get_bytes)(c, d, n); }
uint64_t vs_cc_u64(void *c) { return prng_get_u64(c); }
unsigned vs_cc_u8(void *c) { return prng_get_u8(c); }
/* Keccak-256 hash */
void vs_kh_init(void *c) { keccak_init(c); }
void vs_kh_in(void *c, const unsigned char *d, unsigned n) { keccak_update(c, d, (uint16_t)n); }
void vs_kh_out(void *c, unsigned char *d) { keccak_final(c, d); }
