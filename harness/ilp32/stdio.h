#ifndef KV_STDIO_H
#define KV_STDIO_H
#include <stddef.h>
typedef struct kv_file FILE;
#endif
