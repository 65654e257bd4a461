#ifndef KRIPTO_MAC_SKEIN512_H
#define KRIPTO_MAC_SKEIN512_H

extern const kripto_desc_mac *const kripto_mac_skein512;

#endif
