#ifdef SX_SYMBOLIC
extern "C" int sx_number_tokens;
#define SX_TOKENS sx_number_tokens = 1
#define SX_TOKENS_SAME sx_number_tokens = 2 // equal numbers in equal formats are equal text
#else
#define SX_TOKENS (void)0
#define SX_TOKENS_SAME (void)0
#endif
