#ifndef KRIPTO_HASH_SKEIN256_H
#define KRIPTO_HASH_SKEIN256_H

extern const kripto_desc_hash *const kripto_hash_skein256;

#endif
