/* Just enough of the Windows API for randombytes.c. */
#ifndef FAKE_WINDOWS_H
#define FAKE_WINDOWS_H
#include <stddef.h>
#include <stdint.h>
typedef int BOOL;
typedef uint32_t DWORD;
typedef unsigned char BYTE;
typedef uintptr_t ULONG_PTR;
typedef ULONG_PTR HCRYPTPROV;
typedef const char *LPCSTR;
#define TRUE 1
#define FALSE 0
#define WINAPI
DWORD GetLastError(void);
#endif
