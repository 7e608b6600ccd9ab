/* Harness interface.  In the engine these are intrinsics; natively (replay) they are in vs_native.c */
#ifndef VS_H
#define VS_H
#include <stddef.h>
int  vs_range(const char *name, int lo, int hi);   /* new symbolic input, lo..hi inclusive */
void vs_assume(int c);
void vs_assert_(int c, const char *msg);
void vs_cover(const char *msg);
void vs_trace(const char *tag, long v);
void vs_no_leaks(void);                            /* every heap block has been freed */
void vs_dbg(const char *tag, long v);
#define VS_STR2(x) #x
#define VS_STR(x) VS_STR2(x)
#define vs_assert(c, msg) vs_assert_(c, msg)

/* environment control (vs_env.c engine side, vs_native.c native side) */
extern int  vs_alloc_fail_at;      /* -1: allocation never fails; k>=0: the k-th request (0-based) fails */
extern int  vs_alloc_count;        /* number of requests so far */
void vs_rand_script(int *values, int n); /* stream of values handed out by rand(); then repeats the last */
void vs_file_put(const char *name, const char *data, int len); /* create a (virtual) file */
int  vs_file_get(const char *name, char *buf, int cap);        /* content, returns length or -1 */
void vs_stdin_pipe(const char *data, int len);                  /* the same, as a pipe: without positions */
void vs_stdin(const char *data, int len);                       /* what stands on the standard input */
void vs_stdout_keep(void);                                      /* from here on, keep what is written to the standard output */
int  vs_stdout_get(char *buf, int cap);                         /* what was written to it, returns the length */
int  vs_open_streams(void);                                     /* files opened and not closed */
void vs_files_release(void);                                   /* drop the (virtual) files */
long vs_heap_live(const void *p);  /* 1 if p is the start of a live heap block */
#endif
