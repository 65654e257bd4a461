#ifndef KRIPTO_BLOCK_TEA_H
#define KRIPTO_BLOCK_TEA_H

extern const kripto_desc_block *const kripto_block_tea;

#endif
