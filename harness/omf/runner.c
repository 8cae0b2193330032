/* Runs a compiled model: runner MODEL.so IN OUT [reps [threads]]
   IN:  i64 n, then per tensor i64 dtype, rank, dims[], nbytes, bytes.
   OUT: i64 ok (1) or 0 and errno; then per repetition (and thread) i64 n and the outputs as above;
   before them the two signatures as i64 length, bytes; after them i64 inputs-changed. */
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "OnnxMlirRuntime.h"
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define DEFINED(p, n) __msan_check_mem_is_initialized(p, n)
#endif
#endif
#ifndef DEFINED
#define DEFINED(p, n)
#endif
typedef OMTensorList *(*run_t)(OMTensorList *);
typedef const char *(*sig_t)(const char *);
static FILE *in, *out;
static int64_t rd(void) { int64_t v; if (fread(&v, 8, 1, in) != 1) { fprintf(stderr, "short input\n"); exit(3); } return v; }
static void wr(int64_t v) { fwrite(&v, 8, 1, out); }
static int64_t n, *dt, *rk, *shp[64], nb[64];
static char *data[64], *copy[64], *alt[64];
static __thread char **cur = data; /* the inputs this thread passes */
static run_t run;
static int reps = 1, nthr = 1;
static size_t esize(int64_t d) { return d == 8 ? sizeof(char *) : (size_t)OM_DATA_TYPE_SIZE[d]; }
static OMTensorList *mk(void) {
  OMTensor **t = malloc(sizeof(*t) * (n ? n : 1));
  for (int64_t i = 0; i < n; i++) t[i] = omTensorCreate(cur[i], shp[i], rk[i], (OM_DATA_TYPE)dt[i]);
  OMTensorList *l = omTensorListCreate(t, n);
  free(t);
  return l;
}
typedef struct { char *buf; size_t len; } Out;
static void put(FILE *f, int64_t v) { fwrite(&v, 8, 1, f); }
static Out once(void) {
  Out r = {0, 0};
  FILE *f = open_memstream(&r.buf, &r.len);
  OMTensorList *l = mk();
  errno = 0;
  OMTensorList *o = run(l);
  int e = errno;
  if (!o) { put(f, 0); put(f, e); fclose(f); omTensorListDestroy(l); return r; }
  int64_t m = omTensorListGetSize(o);
  put(f, 1); put(f, m);
  for (int64_t i = 0; i < m; i++) {
    OMTensor *t = omTensorListGetOmtByIndex(o, i);
    int64_t d = omTensorGetDataType(t), r = omTensorGetRank(t), k = 1;
    const int64_t *s = omTensorGetShape(t), *st = omTensorGetStrides(t);
    put(f, d); put(f, r);
    for (int64_t j = 0; j < r; j++) { put(f, s[j]); k *= s[j]; }
    int64_t dense = 1, w = 1;
    for (int64_t j = r - 1; j >= 0; j--) { if (st[j] != w && s[j] > 1 && k) dense = 0; w *= s[j]; }
    put(f, dense);
    const char *p = omTensorGetDataPtr(t);
    if (d == 8) {
      int64_t len = 0;
      for (int64_t j = 0; j < k; j++) len += strlen(((char **)p)[j]) + 1;
      put(f, len);
      for (int64_t j = 0; j < k; j++) fwrite(((char **)p)[j], strlen(((char **)p)[j]) + 1, 1, f);
    } else {
      put(f, k * (int64_t)esize(d));
      DEFINED(p, k * esize(d));
      if (k) fwrite(p, esize(d), k, f);
    }
  }
  omTensorListDestroy(o);
  omTensorListDestroy(l);
  fclose(f);
  return r;
}
static pthread_barrier_t bar;
struct thr { Out *o; int k; };
static void *thr(void *a) {
  Out *o = ((struct thr *)a)->o;
  if (((struct thr *)a)->k % 2) cur = alt;
  pthread_barrier_wait(&bar);
  for (int i = 0; i < reps; i++) o[i] = once();
  return 0;
}
int main(int argc, char **argv) {
  in = fopen(argv[2], "rb"); out = fopen(argv[3], "wb");
  if (!in || !out) return 3;
  if (argc > 4) reps = atoi(argv[4]);
  if (argc > 5) nthr = atoi(argv[5]);
  void *h = dlopen(argv[1], RTLD_NOW | RTLD_LOCAL);
  if (!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); return 4; }
  run = (run_t)dlsym(h, "run_main_graph");
  sig_t is = (sig_t)dlsym(h, "omInputSignature"), os = (sig_t)dlsym(h, "omOutputSignature");
  if (!run || !is || !os) { fprintf(stderr, "dlsym: %s\n", dlerror()); return 4; }
  n = rd();
  dt = calloc(n + 1, 8); rk = calloc(n + 1, 8);
  for (int64_t i = 0; i < n; i++) {
    dt[i] = rd(); rk[i] = rd();
    shp[i] = malloc(8 * (rk[i] ? rk[i] : 1));
    int64_t k = 1;
    for (int64_t j = 0; j < rk[i]; j++) k *= shp[i][j] = rd();
    int64_t b = rd();
    char *raw = malloc(b ? b : 1);
    if (b && fread(raw, 1, b, in) != (size_t)b) return 3;
    if (dt[i] == 8) {
      nb[i] = k * sizeof(char *);
      data[i] = malloc(nb[i] ? nb[i] : 1);
      char *q = raw;
      for (int64_t j = 0; j < k; j++) { ((char **)data[i])[j] = strdup(q); q += strlen(q) + 1; }
      free(raw);
    } else { data[i] = raw; nb[i] = b; }
    copy[i] = malloc(nb[i] ? nb[i] : 1);
    memcpy(copy[i], data[i], nb[i]);
  }
  const char *s = is("run_main_graph");
  wr(strlen(s)); fwrite(s, 1, strlen(s), out);
  s = os("run_main_graph");
  wr(strlen(s)); fwrite(s, 1, strlen(s), out);
  typedef const char **(*ep_t)(int64_t *);
  ep_t ep = (ep_t)dlsym(h, "omQueryEntryPoints");
  int64_t ne = -1, bad = 0;
  if (!ep) { fprintf(stderr, "dlsym: %s\n", dlerror()); return 4; }
  const char **eps = ep(&ne);
  wr(ne);
  for (int64_t i = 0; i < ne; i++) { wr(strlen(eps[i])); fwrite(eps[i], 1, strlen(eps[i]), out); }
  if (eps[ne]) bad |= 1;
  if (is("no_such_entry") || os("no_such_entry") || is("run_main_grap") || is("run_main_graph2") || os("")) bad |= 2;
  run_t run2 = 0;
  if (getenv("OMF_TAG")) {
    char b[256];
    sig_t i2, o2;
    snprintf(b, sizeof b, "run_main_graph_%s", getenv("OMF_TAG")); run2 = (run_t)dlsym(h, b);
    snprintf(b, sizeof b, "omInputSignature_%s", getenv("OMF_TAG")); i2 = (sig_t)dlsym(h, b);
    snprintf(b, sizeof b, "omOutputSignature_%s", getenv("OMF_TAG")); o2 = (sig_t)dlsym(h, b);
    snprintf(b, sizeof b, "omQueryEntryPoints_%s", getenv("OMF_TAG")); ep_t e2 = (ep_t)dlsym(h, b);
    if (!run2 || !i2 || !o2 || !e2) bad |= 4;
    else {
      int64_t k = -1;
      const char **x = e2(&k);
      if (k != ne) bad |= 8;
      else for (int64_t i = 0; i < k; i++) {
        const char *p = i2(x[i]), *q = is(eps[i]), *u = o2(x[i]), *v = os(eps[i]);
        if (!p || !q || !u || !v) bad |= 64;
        else if (strcmp(p, q) || strcmp(u, v)) bad |= 16;
      }
    }
  }
  Out altout = {0, 0};
  Out *o = calloc(nthr * reps, sizeof(Out));
  if (nthr == 1) for (int i = 0; i < reps; i++) o[i] = once();
  else {
    pthread_t t[64];
    struct thr a[64];
    const char *mask = getenv("OMF_ALT"); /* inputs that odd threads pass in reverse order */
    for (int64_t i = 0; i < n; i++) {
      alt[i] = data[i];
      if (!mask || mask[i] != '1' || dt[i] == 8) continue;
      size_t e = esize(dt[i]);
      alt[i] = malloc(nb[i] ? nb[i] : 1);
      for (int64_t j = 0; j < nb[i]; j += e) memcpy(alt[i] + nb[i] - e - j, data[i] + j, e);
    }
    pthread_barrier_init(&bar, 0, nthr);
    for (int i = 0; i < nthr; i++) { a[i].o = o + i * reps; a[i].k = i; pthread_create(&t[i], 0, thr, &a[i]); }
    for (int i = 0; i < nthr; i++) pthread_join(t[i], 0);
    cur = alt;
    altout = once(); /* alone */
    cur = data;
    Out x = once();
    if (x.len != o[0].len || memcmp(x.buf, o[0].buf, x.len)) bad |= 128;
    free(x.buf);
    for (int64_t i = 0; i < n; i++) if (alt[i] != data[i]) free(alt[i]);
  }
  int64_t changed = 0, differ = 0;
  for (int64_t i = 0; i < n; i++) if (memcmp(copy[i], data[i], nb[i])) changed |= (int64_t)1 << i;
  for (int i = 1; i < nthr * reps; i++) {
    Out *x = nthr > 1 && i / reps % 2 ? &altout : &o[0];
    if (o[i].len != x->len || memcmp(o[i].buf, x->buf, x->len)) differ++;
  }
  free(altout.buf);
  if (run2 && run2 != run) {
    run = run2;
    Out x = once();
    if (x.len != o[0].len || memcmp(x.buf, o[0].buf, o[0].len)) bad |= 32;
    free(x.buf);
  }
  wr(bad); wr(changed); wr(differ);
  fwrite(o[0].buf, 1, o[0].len, out);
  for (int i = 0; i < nthr * reps; i++) free(o[i].buf);
  free(o);
  for (int64_t i = 0; i < n; i++) {
    if (dt[i] == 8) { int64_t k = nb[i] / (int64_t)sizeof(char *); while (k--) free(((char **)data[i])[k]); }
    free(data[i]); free(copy[i]); free(shp[i]);
  }
  free(dt); free(rk);
  fclose(in); fclose(out);
  return 0; /* the library stays open, so reports name its functions */
}
