#undef assert
#ifdef NDEBUG
#define assert(X) ((void)0)
#else
void kv_assert(const char *, const char *, int);
#define assert(X) ((X) ? (void)0 : kv_assert(#X, __FILE__, __LINE__))
#endif
