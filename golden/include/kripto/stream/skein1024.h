#ifndef KRIPTO_STREAM_SKEIN1024_H
#define KRIPTO_STREAM_SKEIN1024_H

extern const kripto_desc_stream *const kripto_stream_skein1024;

#endif
