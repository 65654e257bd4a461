#ifndef KRIPTO_HASH_MD5_H
#define KRIPTO_HASH_MD5_H

extern const kripto_desc_hash *const kripto_hash_md5;

#endif
