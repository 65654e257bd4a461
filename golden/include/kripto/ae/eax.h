#ifndef KRIPTO_AE_EAX_H
#define KRIPTO_AE_EAX_H

extern kripto_desc_ae *kripto_ae_eax(const kripto_desc_block *block);

#endif
