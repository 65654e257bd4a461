#ifndef KRIPTO_HASH_SHA3_H
#define KRIPTO_HASH_SHA3_H

extern const kripto_desc_hash *const kripto_hash_sha3;

#endif
