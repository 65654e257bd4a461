#ifndef KRIPTO_BLOCK_THREEFISH512_H
#define KRIPTO_BLOCK_THREEFISH512_H

extern const kripto_desc_block *const kripto_block_threefish512;

#endif
