#ifndef KRIPTO_STREAM_RC4_H
#define KRIPTO_STREAM_RC4_H

#include <kripto/stream.h>

extern const kripto_desc_stream *const kripto_stream_rc4;

#endif
