// stand-in for the part of <bcrypt.h> that the randomness source needs; randdrv.c implements it
#pragma once
#include "windows.h"
typedef void *BCRYPT_ALG_HANDLE;
#define BCRYPT_SUCCESS(s) (((NTSTATUS)(s)) >= 0)
#define NT_SUCCESS(s) (((NTSTATUS)(s)) >= 0)
#define STATUS_SUCCESS ((NTSTATUS)0)
#define BCRYPT_USE_SYSTEM_PREFERRED_RNG 2
#define BCRYPT_RNG_USE_ENTROPY_IN_BUFFER 1
NTSTATUS BCryptGenRandom(BCRYPT_ALG_HANDLE h, PUCHAR p, ULONG n, ULONG flags);
