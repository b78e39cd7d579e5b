#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include "xlat.c"
int log_level = 0;
void log_print(int level, char *file, int line, const char *fmt, ...) { }
void log_print_s(int level, char *file, int line, const char *fmt, ...) { }
void log_print_c(int level, const char *fmt, ...) { }
void print_tags(char *name, int state, uint16_t tags, uint16_t bus_out) { }
void print_inst(uint8_t *val) { }
static unsigned P(unsigned b) { b &= 0xff; return b | odd_parity[b]; }
