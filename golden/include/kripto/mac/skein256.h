#ifndef KRIPTO_MAC_SKEIN256_H
#define KRIPTO_MAC_SKEIN256_H

extern const kripto_desc_mac *const kripto_mac_skein256;

#endif
