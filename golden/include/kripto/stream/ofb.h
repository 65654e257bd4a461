#ifndef KRIPTO_STREAM_OFB_H
#define KRIPTO_STREAM_OFB_H

extern kripto_desc_stream *kripto_stream_ofb(const kripto_desc_block *block);

#endif
