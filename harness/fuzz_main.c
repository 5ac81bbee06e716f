/* main() of a program (PROGFILE), to be called by fuzz_prog.c: the environment it sees is that of the harness. */
#define _GNU_SOURCE
#include <ctype.h>
#include <math.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <time.h>
#include <unistd.h>
__attribute__((noreturn)) void prog_exit(int);
FILE *prog_fopen(const char *, const char *); int prog_fclose(FILE *);
void *prog_malloc(size_t), *prog_calloc(size_t, size_t), *prog_realloc(void *, size_t); void prog_free(void *);
#define main prog_main
#define exit prog_exit
#define fopen prog_fopen
#define fclose prog_fclose
#define malloc prog_malloc
#define calloc prog_calloc
#define realloc prog_realloc
#define free prog_free
#include PROGFILE
