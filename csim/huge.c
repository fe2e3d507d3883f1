/*
 * Requests, streams and messages of more than 2 and 4 GiB, without that much memory: the long buffers are
 * one window of W bytes mapped again and again, between pages that must not be touched.
 *
 *   huge rb N                    randombytes()
 *   huge rc N                    N calls of randombytes() after it was seeded: the system is not asked for entropy any more
 *   huge se N                    seedexpander()
 *   huge sg_X N PK SK PAT HOW    sign and open (X: n, z, e). HOW 1: signing must be refused; 2: deliver it with one byte changed
 *
 * The block cipher is replaced (the library is a shared object, and its call binds to AES256_ECB() below),
 * as the real one would take minutes. Exit: 0 held, 1 violated (and a line that says what), 3 the cipher is not called by that name.
 */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include "katrng.h"

typedef unsigned char u8;
typedef unsigned long long ull;
#define PAGE 4096ull
#define W (1003 * PAGE)

void randombytes_init(u8 *e, u8 *p, int s);
int randombytes(u8 *x, ull n);
int crypto_sign(u8 *, ull *, const u8 *, ull, const u8 *);
int crypto_sign_open(u8 *, ull *, const u8 *, ull, const u8 *);
int zknox_crypto_sign(u8 *, ull *, const u8 *, ull, const u8 *);
int zknox_crypto_sign_open(u8 *, ull *, const u8 *, ull, const u8 *);
int zknox_crypto_sign_epervier(u8 *, ull *, const u8 *, ull, const u8 *);
int zknox_crypto_sign_open_epervier(u8 *, ull *, const u8 *, ull, const u8 *);

static ull system_calls;
int getentropy(void *b, size_t n) { system_calls ++; memset(b, 0x5A, n); return 0; }
ssize_t getrandom(void *b, size_t n, unsigned f) { system_calls ++; memset(b, 0x5A, n); return n; }

static ull calls, most = ~0ull;

static void
bad(const char *s)
{
	printf("%s\n", s);
	fflush(stdout);
	_exit(1);
}

static void
cipher(const u8 *key, const u8 *ctr, u8 *out)
{
	uint64_t k[4], c[2];
	memcpy(k, key, 32);
	memcpy(c, ctr, 16);
	uint64_t a = c[0] ^ k[0], b = c[1] + k[1];
	a = (a + k[2]) * 0x9e3779b97f4a7c15ull ^ b >> 29;
	b = (b ^ k[3] ^ a) * 0xbf58476d1ce4e5b9ull;
	b ^= b >> 31;
	memcpy(out, &a, 8);
	memcpy(out + 8, &b, 8);
}

void
AES256_ECB(u8 *key, u8 *ctr, u8 *out)
{
	if (++ calls > most)
		bad("more blocks are generated than were asked for");
	cipher(key, ctr, out);
}

static void
inc(u8 *v, int from)
{
	for (int i = 15; i >= from && ++ v[i] == 0; i --);
}

/* the state after randombytes_init(e) */
static void
model_init(const u8 *e, u8 *key, u8 *v)
{
	u8 t[48];
	memset(key, 0, 32);
	memset(v, 0, 16);
	for (int i = 0; i < 3; i ++) {
		inc(v, 0);
		cipher(key, v, t + 16 * i);
	}
	for (int i = 0; i < 48; i ++)
		t[i] ^= e[i];
	memcpy(key, t, 32);
	memcpy(v, t + 32, 16);
}

/* A buffer of n bytes ending at an untouchable page; own: whole pages at both ends that are not shared. */
static u8 *
window(size_t n, size_t own)
{
	size_t tot = (n + PAGE - 1) / PAGE * PAGE;
	int fd = memfd_create("w", 0);
	if (fd < 0 || ftruncate(fd, W) != 0)
		exit(2);
	u8 *b = mmap(0, tot + 2 * W, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (b == MAP_FAILED)
		exit(2);
	b += W;
	for (size_t o = 0; o < tot; o += W) {
		size_t l = tot - o < W ? tot - o : W;
		if (mmap(b + o, l, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED)
			exit(2);
	}
	if (own) {
		size_t e = (tot - own) / PAGE * PAGE;
		if (mmap(b, own, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED
			|| mmap(b + e, tot - e, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED)
			exit(2);
	}
	close(fd);
	return b + (tot - n);
}

static size_t
unhex(const char *s, u8 **r)
{
	size_t n = strlen(s) / 2;
	*r = malloc(n + 1);
	for (size_t i = 0; i < n; i ++) {
		unsigned x;
		sscanf(s + 2 * i, "%2x", &x);
		(*r)[i] = (u8)x;
	}
	return n;
}

static void
stream_check(const u8 *b, ull n, u8 *key, u8 *v, int from, int after)
{
	/* the last W bytes written are what the window holds */
	ull start = n > W ? (n - W + 15) / 16 : 0;
	u8 t[16], c[16];
	for (ull k = start; k * 16 < n; k ++) {
		memcpy(c, v, 16);
		uint64_t add = k + (after ? 0 : 1);
		for (int i = 15; i >= from && add; i --) {
			add += c[i];
			c[i] = (u8)add;
			add >>= 8;
		}
		cipher(key, c, t);
		size_t l = n - k * 16 < 16 ? n - k * 16 : 16;
		if (memcmp(b + k * 16, t, l) != 0) {
			printf("wrong bytes at offset %llu of %llu\n", k * 16, n);
			fflush(stdout);
			_exit(1);
		}
	}
}

int
main(int argc, char **argv)
{
	ull n = strtoull(argv[2], 0, 0);
	u8 e[48], key[32], v[16];
	for (int i = 0; i < 48; i ++)
		e[i] = (u8)(i * 7 + 3);
	if (strcmp(argv[1], "rb") == 0) {
		u8 small[100];
		randombytes_init(e, 0, 256);
		model_init(e, key, v);
		if (randombytes(small, 100) != 0)
			return 3;
		for (int k = 0; k < 7; k ++) {
			u8 t[16];
			inc(v, 0);
			cipher(key, v, t);
			if (memcmp(small + 16 * k, t, k == 6 ? 4 : 16) != 0)
				return 3;
		}
		u8 *b = window(n, 0);
		randombytes_init(e, 0, 256);
		model_init(e, key, v);
		calls = 0;
		most = n / 16 + 64;
		int r = randombytes(b, n);
		if (r != 0) {
			printf("status %d\n", r);
			return 1;
		}
		stream_check(b, n, key, v, 0, 0);
		return 0;
	}
	if (strcmp(argv[1], "rc") == 0) {
		u8 c;
		randombytes_init(e, 0, 256);
		if (randombytes(&c, 1) != 0 || calls == 0)
			return 3;
		system_calls = 0;
		for (ull i = 0; i < n; i ++) {
			if (randombytes(&c, 1) != 0)
				bad("a request fails");
			if (system_calls) {
				printf("request %llu mixes the entropy of the system into a seeded source\n", i + 2);
				return 1;
			}
		}
		return 0;
	}
	if (strcmp(argv[1], "se") == 0) {
		AES_XOF_struct x;
		u8 div[8] = { 1, 2, 3, 4, 5, 6, 7, 8 }, small[40];
		memset(v, 0, 16);
		memcpy(v, div, 8);
		memset(v + 8, 0xFF, 4);
		memcpy(key, e, 32);
		if (seedexpander_init(&x, e, div, 0xFFFFFFFFul) != 0)
			bad("seedexpander_init() refuses 2^32 - 1");
		calls = 0;
		if (seedexpander(&x, small, 40) != 0 || calls == 0)
			return 3;
		u8 *b = window(n, 0);
		seedexpander_init(&x, e, div, 0xFFFFFFFFul);
		calls = 0;
		most = n / 16 + 64;
		if (n >= 0xFFFFFFFFull)
			most = 64;
		int r = seedexpander(&x, b, n);
		if (n > 0xFFFFFFFFull) {
			if (r == 0)
				bad("more bytes are granted than the expander was set up for");
			for (size_t i = 0; i < W; i ++)
				if (b[i] != 0)
					bad("a refused request writes bytes");
			return 0;
		}
		if (r != 0) {
			printf("status %d\n", r);
			return 1;
		}
		stream_check(b, n, key, v, 12, 1);
		return 0;
	}
	u8 *pk, *sk, *pat;
	unhex(argv[3], &pk);
	unhex(argv[4], &sk);
	size_t pl = unhex(argv[5], &pat);
	int expect = atoi(argv[6]) == 1, alter = atoi(argv[6]) == 2, ret;
	char kind = argv[1][3];
	size_t over = kind == 'n' ? 690 : kind == 'z' ? 1067 : 2095;
	u8 *m = window(n, 0), *sm = window(n + over, 16 * PAGE), *m2 = window(n, 0);
	for (size_t i = 0; i < W && i < n; i ++) {
		m[i] = pat[i % pl] ^ (u8)(i >> 8);
		m2[i] = ~m[i];
	}
	/* the buffers end at a page boundary, so that one window may begin at another phase than the next: they all have period W */
	ull smlen = 12345, mlen = 54321;
	randombytes_init(e, 0, 256);
	ret = kind == 'n' ? crypto_sign(sm, &smlen, m, n, sk) : kind == 'z' ? zknox_crypto_sign(sm, &smlen, m, n, sk) : zknox_crypto_sign_epervier(sm, &smlen, m, n, sk);
	if ((ret != 0) != (expect != 0)) {
		printf("signing %llu bytes: status %d\n", n, ret);
		return 1;
	}
	if (expect != 0) {
		if (smlen != 12345)
			bad("a refused signing changes the length");
		/* a signature of a short message, announced with another length */
		randombytes_init(e, 0, 256);
		ull l = n & 0xFFFFFFFFull, k = l < 1000 ? l : 1000;
		static u8 s[4000];
		ull sl;
		ret = kind == 'n' ? crypto_sign(s, &sl, m, k, sk) : kind == 'z' ? zknox_crypto_sign(s, &sl, m, k, sk) : zknox_crypto_sign_epervier(s, &sl, m, k, sk);
		if (ret != 0)
			bad("a short message is not signed");
		memcpy(sm, s, 42 + k);
		memcpy(sm + 42 + n, s + 42 + k, sl - 42 - k);
		smlen = 42 + n + sl - 42 - k;
		ret = kind == 'n' ? crypto_sign_open(m2, &mlen, sm, smlen, pk) : kind == 'z' ? zknox_crypto_sign_open(m2, &mlen, sm, smlen, pk) : zknox_crypto_sign_open_epervier(m2, &mlen, sm, smlen, pk);
		if (ret == 0)
			bad("a message of more than 2 GiB opens with the signature of a short one");
		if (mlen != 54321)
			bad("a failed opening changes the length");
		return 0;
	}
	if (smlen <= n + 42 || smlen > n + over)
		bad("the length of the signed message is wrong");
	if (alter)
		sm[42 + n - 1] ^= 0x40;         /* (on a page of its own) */
	ret = kind == 'n' ? crypto_sign_open(m2, &mlen, sm, smlen, pk) : kind == 'z' ? zknox_crypto_sign_open(m2, &mlen, sm, smlen, pk) : zknox_crypto_sign_open_epervier(m2, &mlen, sm, smlen, pk);
	if (alter) {
		if (ret == 0)
			bad("a message that was not signed opens");
		if (mlen != 54321)
			bad("a failed opening changes the length");
		return 0;
	}
	if (ret != 0)
		bad("a delivered message does not open");
	if (mlen != n)
		bad("a message opens with another length");
	for (size_t i = 0; i < W; i ++)
		if (m2[i] != m[i])
			bad("a message opens with other bytes");
	return 0;
}
