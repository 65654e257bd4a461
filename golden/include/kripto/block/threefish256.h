#ifndef KRIPTO_BLOCK_THREEFISH256_H
#define KRIPTO_BLOCK_THREEFISH256_H

extern const kripto_desc_block *const kripto_block_threefish256;

#endif
