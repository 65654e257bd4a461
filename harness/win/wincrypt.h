#ifndef KV_WINCRYPT_H
#define KV_WINCRYPT_H
#include "windows.h"
typedef ULONG_PTR HCRYPTPROV;
#define PROV_RSA_FULL 1
#define PROV_RSA_AES 24
#define CRYPT_VERIFYCONTEXT 0xF0000000u
#define CRYPT_NEWKEYSET 8u
#define CRYPT_MACHINE_KEYSET 0x20u
#define CRYPT_SILENT 0x40u
extern BOOL kv_acquire(HCRYPTPROV *prov, LPCSTR container, LPCSTR name, DWORD type, DWORD flags);
extern BOOL kv_gen(HCRYPTPROV prov, DWORD len, BYTE *out);
extern BOOL kv_release(HCRYPTPROV prov, DWORD flags);
#define CryptAcquireContext kv_acquire
#define CryptAcquireContextA kv_acquire
#define CryptGenRandom kv_gen
#define CryptReleaseContext kv_release
#endif
