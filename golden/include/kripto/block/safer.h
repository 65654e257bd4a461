#ifndef KRIPTO_BLOCK_SAFER_H
#define KRIPTO_BLOCK_SAFER_H

extern const kripto_desc_block *const kripto_block_safer;

#endif
