/* forced into every library source for the replay build: system calls and the allocator go through recordable stand-ins */
#ifndef _GNU_SOURCE
#define _GNU_SOURCE      /* the headers below come before the feature macros of the source */
#endif
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#ifdef __linux__
#include <sys/types.h>
#endif
int vp_open(const char *path, int flags, ...);
ssize_t vp_read(int fd, void *buf, size_t n);
int vp_close(int fd);
void *vp_malloc(size_t n);
void *vp_calloc(size_t n, size_t m);
void vp_free(void *p);
size_t vp_fwrite(const void *p, size_t s, size_t n, FILE *f);
int vp_fputc(int c, FILE *f);
int vp_fputs(const char *s, FILE *f);
void vp_exit(int code);
#ifndef VP_HOOK_IMPL
#define open vp_open
#define read vp_read
#define close vp_close
#define malloc vp_malloc
#define calloc vp_calloc
#define free vp_free
#define fwrite vp_fwrite
#undef putchar
#undef putc
#define fputc vp_fputc
#define putc vp_fputc
#define putchar(c) vp_fputc(c, stdout)
#define fputs vp_fputs
#define exit vp_exit
#endif
