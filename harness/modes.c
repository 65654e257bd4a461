#include "kv.h"
#define M(X) void m_##X(struct rng *, long);
#define MI(X, I) void m_##X(struct rng *, long); void I(void);
#include "modes.inc"
#undef M
#undef MI
#define M(X) {#X, m_##X, 0},
#define MI(X, I) {#X, m_##X, I},
const struct mode MODES_TAB[] =
{
#include "modes.inc"
	{0, 0, 0}
};
