#define alloca __builtin_alloca
