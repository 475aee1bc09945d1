// stand-in for the part of <windows.h> that the randomness source needs
#pragma once
#include <stdint.h>
#include <stddef.h>
typedef uint32_t ULONG; typedef uint32_t DWORD; typedef unsigned char UCHAR, *PUCHAR, BYTE; typedef int32_t LONG, NTSTATUS; typedef int BOOL; typedef void *PVOID;
#ifndef TRUE
#define TRUE 1
#define FALSE 0
#endif
#define WINAPI
