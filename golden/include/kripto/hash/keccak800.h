#ifndef KRIPTO_HASH_KECCAK800_H
#define KRIPTO_HASH_KECCAK800_H

extern const kripto_desc_hash *const kripto_hash_keccak800;

#endif
