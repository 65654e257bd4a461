#ifndef KRIPTO_MAC_HMAC_H
#define KRIPTO_MAC_HMAC_H

extern kripto_desc_mac *kripto_mac_hmac(const kripto_desc_hash *hash);

#endif
