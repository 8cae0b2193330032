/* A model scripted by the Python harness (through ctypes): records its inputs, produces described outputs. */
#include "OnnxMlirRuntime.h"
#include <errno.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
void omTensorSetDataPtr(OMTensor *, int64_t, void *, void *); // called by compiled models
typedef struct { int kind, dtype, rank, src; int64_t shape[8]; int64_t off, nbytes; char *data; } Out;
typedef struct { int dtype, rank; int64_t owning, shape[8], strides[8]; char *data; int64_t n; } In;
static Out outs[16]; static int nout, fail_errno, fail_signal; static In ins[16]; static int nin, runs; static char sig[4096] = "[]"; static char entry[64];
static char stat[1 << 16];
void pm_reset(void) { for (int i = 0; i < nout; ++i) free(outs[i].data); nout = 0; fail_errno = fail_signal = 0; for (int i = 0; i < nin; ++i) free(ins[i].data); nin = 0; runs = 0; entry[0] = 0; }
void pm_out(int kind, int dtype, int rank, const int64_t *shape, int src, int64_t off, const char *data, int64_t n) {
  Out *o = &outs[nout++]; o->kind = kind; o->dtype = dtype; o->rank = rank; o->src = src; o->off = off; o->nbytes = n; memcpy(o->shape, shape, rank * 8); o->data = malloc(n ? n : 1); memcpy(o->data, data, n); }
void pm_fail(int e, int s) { fail_errno = e; fail_signal = s; }
void pm_signature(const char *s) { snprintf(sig, sizeof sig, "%s", s); }
void pm_scribble(void) { memset(stat, 0x5a, sizeof stat); }
int pm_runs(void) { return runs; } int pm_nin(void) { return nin; } const char *pm_entry(void) { return entry; }
int pm_in(int i, int64_t *dtype, int64_t *rank, int64_t *owning, int64_t *shape, int64_t *strides, char **data, int64_t *n) { In *a = &ins[i]; *dtype = a->dtype; *rank = a->rank; *owning = a->owning; memcpy(shape, a->shape, 64); memcpy(strides, a->strides, 64); *data = a->data; *n = a->n; return 0; }
static void record(OMTensor *t) {
  In *a = &ins[nin++]; a->rank = omTensorGetRank(t); a->dtype = omTensorGetDataType(t); a->owning = omTensorGetOwning(t); const int64_t *s = omTensorGetShape(t), *st = omTensorGetStrides(t); int64_t n = 1, ix[8] = {0};
  for (int k = 0; k < a->rank; ++k) { a->shape[k] = s[k]; a->strides[k] = st[k]; n *= s[k]; }
  size_t es = a->dtype == ONNX_TYPE_STRING ? sizeof(char *) : OM_DATA_TYPE_SIZE[a->dtype]; char *p = omTensorGetDataPtr(t); size_t cap = n * es + 16, len = 0; a->data = malloc(cap);
  for (int64_t e = 0; e < n; ++e) { int64_t off = 0; for (int k = 0; k < a->rank; ++k) off += ix[k] * st[k];
    if (a->dtype == ONNX_TYPE_STRING) { const char *q = ((char **)p)[off]; size_t l = strlen(q) + 1; while (len + l > cap) a->data = realloc(a->data, cap *= 2); memcpy(a->data + len, q, l); len += l; }
    else { memcpy(a->data + len, p + off * es, es); len += es; }
    for (int k = a->rank - 1; k >= 0; --k) { if (++ix[k] < s[k]) break; ix[k] = 0; } }
  a->n = len; }
static OMTensorList *run(OMTensorList *l, const char *e) {
  ++runs; snprintf(entry, sizeof entry, "%s", e); for (int i = 0; i < nin; ++i) free(ins[i].data); nin = 0; OMTensor *all[16];
  for (int64_t i = 0; i < omTensorListGetSize(l); ++i) record(omTensorListGetOmtByIndex(l, i));
  if (fail_signal) raise(fail_signal);
  if (fail_errno) { errno = fail_errno; return NULL; }
  size_t spos = 0;
  for (int i = 0; i < nout; ++i) { Out *o = &outs[i]; OMTensor *t = NULL; char *a = NULL, *d = NULL; int own = 1;
    switch (o->kind) {
    case 1: a = malloc(o->off + o->nbytes); d = a + o->off; memcpy(d, o->data, o->nbytes); break;
    case 2: a = d = stat + spos; memcpy(d, o->data, o->nbytes); spos += (o->nbytes + 63) / 64 * 64; own = 0; break;
    case 3: { OMTensor *in = omTensorListGetOmtByIndex(l, o->src); t = omTensorCreate(omTensorGetDataPtr(in), omTensorGetShape(in), omTensorGetRank(in), omTensorGetDataType(in)); break; }
    case 4: a = omTensorGetAllocatedPtr(all[o->src]); d = a + outs[o->src].off + o->off; break;
    case 5: all[i] = NULL; continue;
    case 7: case 8: { int64_t n = 1; for (int k = 0; k < o->rank; ++k) n *= o->shape[k]; a = d = malloc(n * sizeof(char *) + o->nbytes + 1); char *s = d + n * sizeof(char *); memcpy(s, o->data, o->nbytes); for (int64_t k = 0; k < n; ++k) { ((char **)d)[k] = s; s += strlen(s) + 1; } own = o->kind == 7; if (!own) { static void *keep; free(keep); keep = a; } break; }
    }
    if (!t) { t = omTensorCreate(d, o->shape, o->rank, o->dtype); omTensorSetDataPtr(t, own, a, d); }
    all[i] = t; }
  return omTensorListCreate(all, nout); }
#define S(x) __attribute__((visibility("default"))) x
OMTensorList *run_main_graph(OMTensorList *l) { return run(l, "run_main_graph"); }
OMTensorList *run_second(OMTensorList *l) { return run(l, "run_second"); }
static const char *const eps[] = {"run_main_graph", "run_second", NULL};
const char *const *omQueryEntryPoints(int64_t *n) { if (n) *n = 2; return eps; }
const char *omInputSignature(const char *e) { return !strcmp(e, eps[0]) ? sig : !strcmp(e, eps[1]) ? "[ second in ]" : NULL; }
const char *omOutputSignature(const char *e) { return !strcmp(e, eps[0]) ? "[ main out ]" : !strcmp(e, eps[1]) ? "[ second out ]" : NULL; }
const char *omCompilationInfo(void) { return "{ scripted }"; }
