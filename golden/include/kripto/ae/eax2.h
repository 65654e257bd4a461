#ifndef KRIPTO_AE_EAX2_H
#define KRIPTO_AE_EAX2_H

extern kripto_desc_ae *kripto_ae_eax2
(
	const kripto_desc_stream *stream,
	const kripto_desc_mac *mac
);

#endif
