// A model for the Java binding: output 0 describes what arrived, the others echo the inputs.
#include "OnnxMlirRuntime.h"
#include <errno.h>
#include <stdlib.h>
#include <string.h>
OMTensor *omTensorCreateUntyped(int64_t); void omTensorSetDataPtr(OMTensor *, int64_t, void *, void *);
static const int SZ[] = {0, 4, 1, 1, 2, 2, 4, 8, 8, 1, 2, 8, 4, 8, 8, 16, 2, 1, 1, 1, 1};
static int64_t bytes(OMTensor *t) { int64_t n = SZ[omTensorGetDataType(t)]; for (int i = 0; i < omTensorGetRank(t); ++i) n *= omTensorGetShape(t)[i]; return n; }
static OMTensor *make(int own, char *alloc, char *data, const int64_t *shape, int64_t rank, int type) { OMTensor *t = omTensorCreateUntyped(rank); int64_t st = 1; omTensorSetDataPtr(t, own, alloc, data); omTensorSetDataType(t, type); for (int64_t i = rank - 1; i >= 0; --i) { ((int64_t *)omTensorGetShape(t))[i] = shape[i]; ((int64_t *)omTensorGetStrides(t))[i] = st; st *= shape[i]; } return t; }
static __thread char STATIC[1 << 20];
OMTensorList *run_main_graph(OMTensorList *in) {
  int64_t n = omTensorListGetSize(in), total = 8; OMTensor **out = malloc((n + 1) * sizeof *out);
  for (int64_t i = 0; i < n; ++i) { OMTensor *t = omTensorListGetOmtByIndex(in, i); if (omTensorGetDataType(t) == 3 && omTensorGetRank(t) == 1 && omTensorGetShape(t)[0] == 4 && !memcmp(omTensorGetDataPtr(t), "FAIL", 4)) { free(out); errno = EINVAL; return NULL; } total += 24 + 8 * omTensorGetRank(t) + bytes(t); }
  char *d = malloc(total), *p = d; memcpy(p, &n, 8); p += 8; int64_t used = 0;
  for (int64_t i = 0; i < n; ++i) { OMTensor *t = omTensorListGetOmtByIndex(in, i); int64_t type = omTensorGetDataType(t), rank = omTensorGetRank(t), b = bytes(t); memcpy(p, &type, 8); memcpy(p + 8, &rank, 8); memcpy(p + 16, omTensorGetShape(t), rank * 8); p += 16 + 8 * rank; memcpy(p, &b, 8); memcpy(p + 8, omTensorGetDataPtr(t), b); p += 8 + b;
    int own = i % 3 != 2 || used + b + 64 > (int64_t)sizeof STATIC; int64_t off = i % 2 * 32; char *q = own ? malloc(b + off + 1) : STATIC + used; if (!own) used += b + off; memcpy(q + off, omTensorGetDataPtr(t), b); out[i + 1] = make(own, q, q + off, omTensorGetShape(t), rank, type); }
  out[0] = make(1, d, d, &total, 1, 2); OMTensorList *l = omTensorListCreate(out, n + 1); free(out); return l; }
static const char *EPS[] = {"zażółć", "run_main_graph_tag", "run_main_graph", "with space %s%n", 0};
const char *const *omQueryEntryPoints(int64_t *n) { if (n) *n = 4; return EPS; }
static const char *SIGS[] = {"[    { \"type\" : \"f32\" , \"dims\" : [3 , -1] , \"name\" : \"x\" } ]", "", "[ \"日本語\" , \"ż\" ]", "%s%n%d 100%\n\t\"\\"};
static const char *OSIGS[] = {"[ out ]", "[]", "[ \"é\" ]", "%p"};
const char *omInputSignature(const char *e) { for (int i = 0; EPS[i]; ++i) if (!strcmp(e, EPS[i])) return SIGS[i]; if (!strcmp(e, "emoji")) return "[ \"\xf0\x9f\x98\x80\" ]"; return NULL; }
const char *omOutputSignature(const char *e) { for (int i = 0; EPS[i]; ++i) if (!strcmp(e, EPS[i])) return OSIGS[i]; return NULL; }
const char *omCompilationInfo(void) { return "{ \"compiled\" : \"żółw\" }"; }
