/* the few declarations ref/randombytes.c needs to be translated in its Windows variant */
#ifndef KYSYM_WINDOWS_H
#define KYSYM_WINDOWS_H
typedef unsigned long long HCRYPTPROV;
typedef unsigned int DWORD;
typedef unsigned char BYTE;
typedef int BOOL;
#define PROV_RSA_FULL 1
#define CRYPT_VERIFYCONTEXT 0xF0000000u
BOOL CryptAcquireContext(HCRYPTPROV *, const char *, const char *, DWORD, DWORD);
BOOL CryptGenRandom(HCRYPTPROV, DWORD, BYTE *);
BOOL CryptReleaseContext(HCRYPTPROV, DWORD);
#endif
