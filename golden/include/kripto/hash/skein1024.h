#ifndef KRIPTO_HASH_SKEIN1024_H
#define KRIPTO_HASH_SKEIN1024_H

extern const kripto_desc_hash *const kripto_hash_skein1024;

#endif
