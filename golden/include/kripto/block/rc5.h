#ifndef KRIPTO_BLOCK_RC5_H
#define KRIPTO_BLOCK_RC5_H

extern const kripto_desc_block *const kripto_block_rc5;

#endif
