#ifndef KRIPTO_HASH_KECCAK1600_H
#define KRIPTO_HASH_KECCAK1600_H

extern const kripto_desc_hash *const kripto_hash_keccak1600;

#endif
