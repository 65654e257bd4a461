#ifndef KRIPTO_BLOCK_SIMON32_H
#define KRIPTO_BLOCK_SIMON32_H

extern const kripto_desc_block *const kripto_block_simon32;

#endif
