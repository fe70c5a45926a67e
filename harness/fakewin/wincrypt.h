#ifndef FAKE_WINCRYPT_H
#define FAKE_WINCRYPT_H
#include "windows.h"
#define PROV_RSA_FULL 1
#define CRYPT_VERIFYCONTEXT 0xF0000000u
#define CRYPT_SILENT 0x40
BOOL CryptAcquireContextA(HCRYPTPROV *h, LPCSTR c, LPCSTR p, DWORD t, DWORD f);
#define CryptAcquireContext CryptAcquireContextA
BOOL CryptGenRandom(HCRYPTPROV h, DWORD n, BYTE *b);
BOOL CryptReleaseContext(HCRYPTPROV h, DWORD f);
#endif
