#ifndef KRIPTO_BLOCK_THREEFISH1024_H
#define KRIPTO_BLOCK_THREEFISH1024_H

extern const kripto_desc_block *const kripto_block_threefish1024;

#endif
