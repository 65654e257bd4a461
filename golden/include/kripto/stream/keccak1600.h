#ifndef KRIPTO_STREAM_KECCAK1600_H
#define KRIPTO_STREAM_KECCAK1600_H

extern const kripto_desc_stream *const kripto_stream_keccak1600;

#endif
