#ifndef KRIPTO_STREAM_KECCAK800_H
#define KRIPTO_STREAM_KECCAK800_H

extern const kripto_desc_stream *const kripto_stream_keccak800;

#endif
