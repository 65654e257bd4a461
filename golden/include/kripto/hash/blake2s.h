#ifndef KRIPTO_HASH_BLAKE2S_H
#define KRIPTO_HASH_BLAKE2S_H

extern const kripto_desc_hash *const kripto_hash_blake2s;

#endif
