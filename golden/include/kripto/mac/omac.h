#ifndef KRIPTO_MAC_OMAC_H
#define KRIPTO_MAC_OMAC_H

extern kripto_desc_mac *kripto_mac_omac(const kripto_desc_block *block);

#endif
