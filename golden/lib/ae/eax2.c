/*
 * Copyright (C) 2013 by Gregor Pintar <grpintar@gmail.com>
 *
 * Permission to use, copy, modify, and/or distribute this software for any
 * purpose with or without fee is hereby granted.
 *
 * THE SOFTWARE IS PROVIDED "AS IS" AND THE AUTHOR DISCLAIMS ALL WARRANTIES
 * WITH REGARD TO THIS SOFTWARE INCLUDING ALL IMPLIED WARRANTIES OF
 * MERCHANTABILITY AND FITNESS. IN NO EVENT SHALL THE AUTHOR BE LIABLE FOR
 * ANY SPECIAL, DIRECT, INDIRECT, OR CONSEQUENTIAL DAMAGES OR ANY DAMAGES
 * WHATSOEVER RESULTING FROM LOSS OF USE, DATA OR PROFITS, WHETHER IN AN
 * ACTION OF CONTRACT, NEGLIGENCE OR OTHER TORTIOUS ACTION, ARISING OUT OF
 * OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
 */

#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include <limits.h>

#include <kripto/cast.h>
#include <kripto/memory.h>
#include <kripto/stream.h>
#include <kripto/mac.h>
#include <kripto/ae.h>
#include <kripto/desc/ae.h>

#include <kripto/ae/eax2.h>

struct kripto_ae
{
	const kripto_desc_ae *desc;
	unsigned int multof;
	kripto_stream *stream;
	kripto_mac *mac;
	kripto_mac *header;
	uint8_t *iv;
	unsigned int len;
};

static void eax2_encrypt
(
	kripto_ae *s,
	const void *pt,
	void *ct,
	size_t len
)
{
	kripto_stream_encrypt(s->stream, pt, ct, len);
	kripto_mac_input(s->mac, ct, len);
}

static void eax2_decrypt
(
	kripto_ae *s,
	const void *ct,
	void *pt,
	size_t len
)
{
	kripto_mac_input(s->mac, ct, len);
	kripto_stream_decrypt(s->stream, ct, pt, len);
}

static void eax2_header
(
	kripto_ae *s,
	const void *header,
	size_t len
)
{
	kripto_mac_input(s->header, header, len);
}

static void eax2_tag
(
	kripto_ae *s,
	void *tag,
	unsigned int len
)
{
	unsigned int i;

	kripto_mac_tag(s->mac, tag, len);
	for(i = 0; i < len; i++)
		U8(tag)[i] ^= s->iv[i];

	kripto_mac_tag(s->header, s->iv, len);
	for(i = 0; i < len; i++)
		U8(tag)[i] ^= s->iv[i];
}

static void eax2_destroy(kripto_ae *s)
{
	kripto_stream_destroy(s->stream);
	kripto_mac_destroy(s->mac);
	kripto_mac_destroy(s->header);

	kripto_memory_wipe(s->iv, s->len);

	free(s);
}

struct ext
{
	kripto_desc_ae desc;
	const kripto_desc_stream *stream;
	const kripto_desc_mac *mac;
};

#define EXT(X) ((const struct ext *)(X))

static kripto_ae *eax2_create
(
	const kripto_desc_ae *desc,
	unsigned int rounds,
	const void *key,
	unsigned int key_len,
	const void *iv,
	unsigned int iv_len,
	unsigned int tag_len
)
{
	kripto_ae *s;
	uint8_t *buf;
	unsigned int mac_key; /* K1 */
	unsigned int stream_key; /* K2 */
	unsigned int stream_iv;

	buf = (uint8_t *)malloc(tag_len);
	if(!buf) goto err0;

	s = (kripto_ae *)malloc(sizeof(kripto_ae) + tag_len);
	if(!s) goto err1;

	s->desc = desc;
	s->iv = (uint8_t *)s + sizeof(kripto_ae);
	s->len = tag_len;

	/* split key */
	stream_key = (key_len + 1) >> 1;
	if(stream_key > kripto_stream_maxkey(EXT(desc)->stream))
		stream_key = kripto_stream_maxkey(EXT(desc)->stream);
	mac_key = key_len - stream_key;

	/* MAC IV */
	s->mac = kripto_mac_create(EXT(desc)->mac, rounds, key, mac_key, tag_len);
	if(!s->mac) goto err2;
	memset(buf, 0, tag_len);
	kripto_mac_input(s->mac, buf, tag_len);
	kripto_mac_input(s->mac, iv, iv_len);
	kripto_mac_tag(s->mac, s->iv, tag_len);

	/* recreate MAC for encryption/decryption */
	s->mac = kripto_mac_recreate(s->mac, rounds, key, mac_key, tag_len);
	if(!s->mac) goto err3;
	buf[tag_len - 1] = 2;
	kripto_mac_input(s->mac, buf, tag_len);

	/* MAC of nonce is the stream cipher IV */
	stream_iv = tag_len;
	if(stream_iv > kripto_stream_maxiv(EXT(desc)->stream))
		stream_iv = kripto_stream_maxiv(EXT(desc)->stream);

	/* create stream cipher */
	s->stream = kripto_stream_create
	(
		EXT(desc)->stream, rounds,
		(const uint8_t *)key + mac_key, stream_key,
		s->iv, stream_iv
	);
	if(!s->stream) goto err4;

	s->multof = kripto_stream_multof(s->stream);

	/* create MAC for header */
	s->header = kripto_mac_create(EXT(desc)->mac, rounds, key, mac_key, tag_len);
	if(!s->header) goto err5;
	buf[tag_len - 1] = 1;
	kripto_mac_input(s->header, buf, tag_len);

	free(buf);

	return s;

err5: kripto_stream_destroy(s->stream);
err4: kripto_mac_destroy(s->mac);
err3: kripto_memory_wipe(s->iv, tag_len);
err2: free(s);
err1: free(buf);
err0: return 0;
}

static kripto_ae *eax2_recreate
(
	kripto_ae *s,
	unsigned int rounds,
	const void *key,
	unsigned int key_len,
	const void *iv,
	unsigned int iv_len,
	unsigned int tag_len
)
{
	uint8_t *buf;
	unsigned int mac_key; /* K1 */
	unsigned int stream_key; /* K2 */
	unsigned int stream_iv;
	const kripto_desc_ae *desc;

	if(tag_len > s->len)
	{
		desc = s->desc;
		eax2_destroy(s);
		return eax2_create(desc, rounds, key, key_len, iv, iv_len, tag_len);
	}

	if(tag_len < s->len)
		kripto_memory_wipe(s->iv + tag_len, s->len - tag_len);

	s->len = tag_len;

	buf = (uint8_t *)malloc(tag_len);
	if(!buf)
	{
		eax2_destroy(s);
		return 0;
	}

	/* split key */
	stream_key = (key_len + 1) >> 1;
	if(stream_key > kripto_stream_maxkey(EXT(s->desc)->stream))
		stream_key = kripto_stream_maxkey(EXT(s->desc)->stream);
	mac_key = key_len - stream_key;

	/* MAC IV */
	s->mac = kripto_mac_recreate(s->mac, rounds, key, mac_key, tag_len);
	if(!s->mac) goto err1;
	memset(buf, 0, tag_len);
	kripto_mac_input(s->mac, buf, tag_len);
	kripto_mac_input(s->mac, iv, iv_len);
	kripto_mac_tag(s->mac, s->iv, tag_len);

	/* recreate MAC for encryption/decryption */
	s->mac = kripto_mac_recreate(s->mac, rounds, key, mac_key, tag_len);
	if(!s->mac) goto err1;
	buf[s->len - 1] = 2;
	kripto_mac_input(s->mac, buf, tag_len);

	/* MAC of nonce is the stream cipher IV */
	stream_iv = tag_len;
	if(stream_iv > kripto_stream_maxiv(EXT(s->desc)->stream))
		stream_iv = kripto_stream_maxiv(EXT(s->desc)->stream);

	/* recreate stream cipher */
	s->stream = kripto_stream_recreate
	(
		s->stream, rounds,
		(const uint8_t *)key + mac_key, stream_key,
		s->iv, stream_iv
	);
	if(!s->stream) goto err2;

	s->multof = kripto_stream_multof(s->stream);

	/* recreate MAC for header */
	s->header = kripto_mac_recreate(s->header, rounds, key, mac_key, tag_len);
	if(!s->header) goto err3;
	buf[s->len - 1] = 1;
	kripto_mac_input(s->header, buf, tag_len);

	free(buf);

	return s;

	/* failed recreate has already destroyed its own object */
err3:
	kripto_stream_destroy(s->stream);
	kripto_mac_destroy(s->mac);
	goto err;
err2:
	kripto_mac_destroy(s->mac);
	kripto_mac_destroy(s->header);
	goto err;
err1:
	kripto_stream_destroy(s->stream);
	kripto_mac_destroy(s->header);
err:
	free(buf);
	kripto_memory_wipe(s->iv, tag_len);
	free(s);
	return 0;
}

kripto_desc_ae *kripto_ae_eax2
(
	const kripto_desc_stream *stream,
	const kripto_desc_mac *mac
)
{
	struct ext *s = (struct ext *)malloc(sizeof(struct ext));
	if(!s) return 0;

	s->stream = stream;
	s->mac = mac;

	s->desc.create = &eax2_create;
	s->desc.recreate = &eax2_recreate;
	s->desc.encrypt = &eax2_encrypt;
	s->desc.decrypt = &eax2_decrypt;
	s->desc.header = &eax2_header;
	s->desc.tag = &eax2_tag;
	s->desc.destroy = &eax2_destroy;
	s->desc.maxkey = kripto_stream_maxkey(stream);
	if(s->desc.maxkey > UINT_MAX - kripto_mac_maxkey(mac))
		s->desc.maxkey = UINT_MAX;
	else
		s->desc.maxkey += kripto_mac_maxkey(mac);
	s->desc.maxiv = kripto_stream_maxiv(stream);
	s->desc.maxtag = kripto_mac_maxtag(mac);

	return (kripto_desc_ae *)s;
}
