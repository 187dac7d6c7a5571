// The reference counts of libjansson are atomic and never a scheduling concern: plain counters here (the
// engine exempts accesses made by this header from race checking; the native replay runs one thread at a time).
#include <jansson_config.h>
#undef JSON_HAVE_ATOMIC_BUILTINS
#undef JSON_HAVE_SYNC_BUILTINS
#define JSON_HAVE_ATOMIC_BUILTINS 0
#define JSON_HAVE_SYNC_BUILTINS 0
#include_next <jansson.h>
