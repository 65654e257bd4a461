#ifndef KRIPTO_BLOCK_SAFER_SK_H
#define KRIPTO_BLOCK_SAFER_SK_H

extern const kripto_desc_block *const kripto_block_safer_sk;

#endif
