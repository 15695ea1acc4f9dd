/*
 * Reference model of the four hash functions with all their parameters,
 * written from RFC 7693 and the BLAKE2 paper. Input is a list of segments of
 * a periodic pattern.
 */
#include <stdint.h>
#include <string.h>

#define PERIOD (1u << 20)

static const uint8_t SIGMA[10][16] = {
	{ 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15 },
	{ 14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3 },
	{ 11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4 },
	{ 7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8 },
	{ 9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13 },
	{ 2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9 },
	{ 12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11 },
	{ 13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10 },
	{ 6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5 },
	{ 10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0 },
};
static const uint64_t IVB[8] = {
	0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1,
	0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179,
};

struct hash {
	int small;
	uint64_t h[8];
	uint8_t buf[128];
	unsigned fill;
	unsigned __int128 count;
	int last;
};

static uint64_t rot(uint64_t x, int n, int small)
{
	if (small) {
		uint32_t y = x;
		return (uint32_t)(y >> n | y << (32 - n));
	}
	return x >> n | x << (64 - n);
}

static void compress(struct hash *s, int final)
{
	static const uint8_t RB[4] = { 32, 24, 16, 63 }, RS[4] = { 16, 12, 8, 7 };
	static const uint8_t AT[8][4] = { { 0, 4, 8, 12 }, { 1, 5, 9, 13 }, { 2, 6, 10, 14 }, { 3, 7, 11, 15 },
					  { 0, 5, 10, 15 }, { 1, 6, 11, 12 }, { 2, 7, 8, 13 }, { 3, 4, 9, 14 } };
	uint64_t v[16], m[16], mask = s->small ? 0xffffffffu : ~0ull;
	int w = s->small ? 4 : 8, rounds = s->small ? 10 : 12, i, r, g;
	const uint8_t *R = s->small ? RS : RB;
	for (i = 0; i < 16; i++) {
		int k;
		m[i] = 0;
		for (k = w - 1; k >= 0; k--)
			m[i] = m[i] << 8 | s->buf[w * i + k];
	}
	for (i = 0; i < 8; i++) {
		v[i] = s->h[i];
		v[i + 8] = s->small ? IVB[i] >> 32 : IVB[i];
	}
	v[12] ^= (uint64_t)s->count & mask;
	v[13] ^= (uint64_t)(s->count >> (8 * w)) & mask;
	if (final)
		v[14] ^= mask;
	if (final && s->last)
		v[15] ^= mask;
	for (r = 0; r < rounds; r++)
		for (g = 0; g < 8; g++) {
			uint64_t *a = v + AT[g][0], *b = v + AT[g][1], *c = v + AT[g][2], *d = v + AT[g][3];
			*a = (*a + *b + m[SIGMA[r % 10][2 * g]]) & mask;
			*d = rot(*d ^ *a, R[0], s->small);
			*c = (*c + *d) & mask;
			*b = rot(*b ^ *c, R[1], s->small);
			*a = (*a + *b + m[SIGMA[r % 10][2 * g + 1]]) & mask;
			*d = rot(*d ^ *a, R[2], s->small);
			*c = (*c + *d) & mask;
			*b = rot(*b ^ *c, R[3], s->small);
		}
	for (i = 0; i < 8; i++)
		s->h[i] ^= v[i] ^ v[i + 8];
}

struct params {
	int32_t small, parallel, outlen, keylen, fanout, depth, node_depth, inner, last;
	uint32_t leaf;
	uint64_t offset;
	uint8_t key[64], salt[16], personal[16];
};

static void update(struct hash *s, const uint8_t *p, uint64_t n)
{
	unsigned block = s->small ? 64 : 128;
	while (n) {
		unsigned k;
		if (s->fill == block) {
			s->count += block;
			compress(s, 0);
			s->fill = 0;
		}
		k = block - s->fill < n ? block - s->fill : n;
		memcpy(s->buf + s->fill, p, k);
		s->fill += k;
		p += k;
		n -= k;
	}
}

static void init(struct hash *s, const struct params *p)
{
	uint8_t b[64], key[128];
	int w = p->small ? 4 : 8, i, k;
	memset(s, 0, sizeof *s);
	memset(b, 0, sizeof b);
	s->small = p->small;
	s->last = p->last;
	b[0] = p->outlen;
	b[1] = p->keylen;
	b[2] = p->fanout;
	b[3] = p->depth;
	for (i = 0; i < 4; i++)
		b[4 + i] = p->leaf >> (8 * i);
	for (i = 0; i < (p->small ? 6 : 8); i++)
		b[8 + i] = p->offset >> (8 * i);
	if (p->small) {
		b[14] = p->node_depth;
		b[15] = p->inner;
		memcpy(b + 16, p->salt, 8);
		memcpy(b + 24, p->personal, 8);
	} else {
		b[16] = p->node_depth;
		b[17] = p->inner;
		memcpy(b + 32, p->salt, 16);
		memcpy(b + 48, p->personal, 16);
	}
	for (i = 0; i < 8; i++) {
		uint64_t x = 0;
		for (k = w - 1; k >= 0; k--)
			x = x << 8 | b[w * i + k];
		s->h[i] = x ^ (p->small ? IVB[i] >> 32 : IVB[i]);
	}
	if (p->keylen) {
		memset(key, 0, sizeof key);
		memcpy(key, p->key, p->keylen);
		update(s, key, p->small ? 64 : 128);
	}
}

static void final(struct hash *s, uint8_t *out, int n)
{
	uint8_t all[64];
	int w = s->small ? 4 : 8, i, k;
	s->count += s->fill;
	memset(s->buf + s->fill, 0, sizeof s->buf - s->fill);
	compress(s, 1);
	for (i = 0; i < 8; i++)
		for (k = 0; k < w; k++)
			all[w * i + k] = s->h[i] >> (8 * k);
	memcpy(out, all, n);
}

/* segs: position, length, rotation of each segment of the pattern;
 * a rotation of k MiB and more: of its texture k */
void model_digest(const struct params *p, const uint8_t *pattern, const uint64_t *segs, int n, uint8_t *out)
{
	struct hash lanes[8], root;
	int ways = p->parallel ? p->small ? 8 : 4 : 1, i;
	unsigned block = p->small ? 64 : 128, full = p->small ? 32 : 64;
	uint64_t at = 0;
	struct params q = *p;
	for (i = 0; i < ways; i++) {
		if (p->parallel) {
			q.fanout = ways;
			q.depth = 2;
			q.leaf = 0;
			q.offset = i;
			q.node_depth = 0;
			q.inner = full;
			q.last = i == ways - 1;
		}
		init(&lanes[i], &q);
	}
	for (i = 0; i < n; i++) {
		uint64_t pos = segs[3 * i] + segs[3 * i + 2] % PERIOD, left = segs[3 * i + 1];
		while (left) {
			uint64_t o = pos % PERIOD, k = PERIOD - o < left ? PERIOD - o : left, room = block - at % block;
			if (ways > 1 && k > room)
				k = room;
			update(&lanes[ways > 1 ? at / block % ways : 0], pattern + segs[3 * i + 2] / PERIOD * PERIOD + o, k);
			pos += k;
			left -= k;
			at += k;
		}
	}
	if (ways == 1) {
		final(&lanes[0], out, p->outlen);
		return;
	}
	q.keylen = 0;
	q.offset = 0;
	q.node_depth = 1;
	q.last = 1;
	/* The key length is in the root's parameters, but no key is hashed. */
	init(&root, &q);
	root.h[0] ^= (uint64_t)p->keylen << 8;
	for (i = 0; i < ways; i++) {
		uint8_t leaf[64];
		final(&lanes[i], leaf, full);
		update(&root, leaf, full);
	}
	final(&root, out, p->outlen);
}
