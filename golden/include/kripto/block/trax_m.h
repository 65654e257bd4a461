#ifndef KRIPTO_BLOCK_TRAX_M_H
#define KRIPTO_BLOCK_TRAX_M_H

extern const kripto_desc_block *const kripto_block_trax_m;

#endif
