#ifndef KRIPTO_HASH_SHA1_H
#define KRIPTO_HASH_SHA1_H

extern const kripto_desc_hash *const kripto_hash_sha1;

#endif
