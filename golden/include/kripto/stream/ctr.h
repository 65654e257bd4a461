#ifndef KRIPTO_STREAM_CTR_H
#define KRIPTO_STREAM_CTR_H

extern kripto_desc_stream *kripto_stream_ctr(const kripto_desc_block *block);

#endif
