/*
 * Copyright (C) 2013 by Gregor Pintar <grpintar@gmail.com>
 *
 * Permission to use, copy, modify, and/or distribute this software for any
 * purpose with or without fee is hereby granted.
 *
 * THE SOFTWARE IS PROVIDED "AS IS" AND THE AUTHOR DISCLAIMS ALL WARRANTIES
 * WITH REGARD TO THIS SOFTWARE INCLUDING ALL IMPLIED WARRANTIES OF
 * MERCHANTABILITY AND FITNESS. IN NO EVENT SHALL THE AUTHOR BE LIABLE FOR
 * ANY SPECIAL, DIRECT, INDIRECT, OR CONSEQUENTIAL DAMAGES OR ANY DAMAGES
 * WHATSOEVER RESULTING FROM LOSS OF USE, DATA OR PROFITS, WHETHER IN AN
 * ACTION OF CONTRACT, NEGLIGENCE OR OTHER TORTIOUS ACTION, ARISING OUT OF
 * OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
 */

#include <string.h>
#include <stdint.h>
#include <stdlib.h>
#include <limits.h>

#include <kripto/memory.h>
#include <kripto/hash.h>
#include <kripto/mac.h>
#include <kripto/desc/mac.h>

#include <kripto/mac/hmac.h>

struct kripto_mac
{
	const kripto_desc_mac *desc;
	kripto_hash *hash;
	size_t size;
	unsigned int r;
	unsigned int blocksize;
	uint8_t *key;
};

static int hmac_init
(
	kripto_mac *s,
	const kripto_desc_hash *hash,
	const void *key,
	unsigned int key_len,
	unsigned int tag_len
)
{
	unsigned int i;

	s->blocksize = kripto_hash_blocksize(hash);

	if(key_len > s->blocksize)
	{
		i = tag_len;
		if(i > s->blocksize) i = s->blocksize;

		if(kripto_hash_all(
			hash,
			s->r,
			0,
			0,
			key,
			key_len,
			s->key,
			i)
		) return -1;
	}
	else
	{
		memcpy(s->key, key, key_len);
		i = key_len;
	}

	memset(s->key + i, 0x36, s->blocksize - i);

	while(i--) s->key[i] ^= 0x36;

	kripto_hash_input(s->hash, s->key, s->blocksize);

	return 0;
}

static void hmac_input(kripto_mac *s, const void *in, size_t len)
{
	kripto_hash_input(s->hash, in, len);
}

static void hmac_tag(kripto_mac *s, void *tag, unsigned int len)
{
	unsigned int i;

	for(i = 0; i < s->blocksize; i++)
		s->key[i] ^= 0x6A; /* 0x5C ^ 0x36 */

	kripto_hash_output(s->hash, tag, len);

	kripto_hash_recreate(s->hash, s->r, 0, 0, len);
	kripto_hash_input(s->hash, s->key, i);
	kripto_hash_input(s->hash, tag, len);
	kripto_hash_output(s->hash, tag, len);
}

static void hmac_destroy(kripto_mac *s)
{
	kripto_hash_destroy(s->hash);

	kripto_memory_wipe(s, s->size);
	free(s);
}

struct ext
{
	kripto_desc_mac desc;
	const kripto_desc_hash *hash;
};

#define EXT(X) ((const struct ext *)(X))

static kripto_mac *hmac_create
(
	const kripto_desc_mac *desc,
	unsigned int r,
	const void *key,
	unsigned int key_len,
	unsigned int tag_len
)
{
	kripto_mac *s = (kripto_mac *)malloc(sizeof(kripto_mac) + kripto_hash_blocksize(EXT(desc)->hash));
	if(!s) return 0;

	s->key = (uint8_t *)s + sizeof(kripto_mac);

	s->desc = desc;
	s->size = sizeof(kripto_mac) + kripto_hash_blocksize(EXT(desc)->hash);
	s->r = r;
	s->hash = kripto_hash_create(EXT(desc)->hash, r, 0, 0, tag_len);
	if(!s->hash)
	{
		free(s);
		return 0;
	}

	if(hmac_init(s, EXT(desc)->hash, key, key_len, tag_len))
	{
		hmac_destroy(s);
		return 0;
	}

	return s;
}

static kripto_mac *hmac_recreate
(
	kripto_mac *s,
	unsigned int r,
	const void *key,
	unsigned int key_len,
	unsigned int tag_len
)
{
	s->hash = kripto_hash_recreate(s->hash, r, 0, 0, tag_len);
	if(!s->hash)
	{
		kripto_memory_wipe(s, s->size);
		free(s);
		return 0;
	}

	s->r = r;

	if(hmac_init(s, EXT(s->desc)->hash, key, key_len, tag_len))
	{
		hmac_destroy(s);
		return 0;
	}

	return s;
}

kripto_desc_mac *kripto_mac_hmac(const kripto_desc_hash *hash)
{
	struct ext *s = (struct ext *)malloc(sizeof(struct ext));
	if(!s) return 0;

	s->hash = hash;

	s->desc.create = &hmac_create;
	s->desc.recreate = &hmac_recreate;
	s->desc.input = &hmac_input;
	s->desc.tag = &hmac_tag;
	s->desc.destroy = &hmac_destroy;
	s->desc.maxtag = kripto_hash_maxout(hash);
	s->desc.maxkey = UINT_MAX;

	return (kripto_desc_mac *)s;
}
