#ifndef _BITS_ENDIANNESS_H
#define _BITS_ENDIANNESS_H 1
#define __BYTE_ORDER __BIG_ENDIAN
#endif
