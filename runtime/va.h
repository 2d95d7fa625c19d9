// In front of printf.c when it is compiled for the verifier: the next argument
// of the call is a ghost input.
#include "stub.h"
#undef va_start
#undef va_arg
#undef va_end
#undef va_copy
long verif_va_arg(void);
#define va_start(ap, last) ((void)(ap))
#define va_arg(ap, type) ((type)verif_va_arg())
#define va_end(ap) ((void)(ap))
