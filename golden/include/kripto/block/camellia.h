#ifndef KRIPTO_BLOCK_CAMELLIA_H
#define KRIPTO_BLOCK_CAMELLIA_H

extern const kripto_desc_block *const kripto_block_camellia;

#endif
