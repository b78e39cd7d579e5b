/* Logging is an output-only dependency: assumed not to touch emulator state. */
#include <stdarg.h>
void log_print(int level, char *file, int line, const char *fmt, ...) { }
void log_print_s(int level, char *file, int line, const char *fmt, ...) { }
void log_print_c(int level, const char *fmt, ...) { }
