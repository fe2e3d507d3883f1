/* Keccak-f[1600], to replace the slow Python permutation where that is equal to it (see sim/pyfalcon.py). */
#include <stdint.h>
static const uint64_t RC[24] = {
	0x1ull, 0x8082ull, 0x800000000000808Aull, 0x8000000080008000ull, 0x808Bull, 0x80000001ull, 0x8000000080008081ull, 0x8000000000008009ull,
	0x8Aull, 0x88ull, 0x80008009ull, 0x8000000Aull, 0x8000808Bull, 0x800000000000008Bull, 0x8000000000008089ull, 0x8000000000008003ull,
	0x8000000000008002ull, 0x8000000000000080ull, 0x800Aull, 0x800000008000000Aull, 0x8000000080008081ull, 0x8000000000008080ull,
	0x80000001ull, 0x8000000080008008ull };
static const int RHO[24] = { 1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43, 62, 18, 39, 61, 20, 44 };
static const int PI[24] = { 10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2, 20, 14, 22, 9, 6, 1 };
#define ROL(x, n) ((x) << (n) | (x) >> (64 - (n)))
void keccakf(uint64_t *s)
{
	for (int r = 0; r < 24; r++) {
		uint64_t c[5], t;
		for (int x = 0; x < 5; x++) c[x] = s[x] ^ s[x + 5] ^ s[x + 10] ^ s[x + 15] ^ s[x + 20];
		for (int x = 0; x < 5; x++) {
			t = c[(x + 4) % 5] ^ ROL(c[(x + 1) % 5], 1);
			for (int y = 0; y < 25; y += 5) s[x + y] ^= t;
		}
		t = s[1];
		for (int i = 0; i < 24; i++) {
			uint64_t u = s[PI[i]];
			s[PI[i]] = ROL(t, RHO[i]);
			t = u;
		}
		for (int y = 0; y < 25; y += 5) {
			for (int x = 0; x < 5; x++) c[x] = s[y + x];
			for (int x = 0; x < 5; x++) s[y + x] = c[x] ^ (~c[(x + 1) % 5] & c[(x + 2) % 5]);
		}
		s[0] ^= RC[r];
	}
}
