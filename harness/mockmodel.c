/* A stand-in for a compiled model: every call is forwarded to the host program. */
#include <stdint.h>
#include <stddef.h>
typedef struct OMTensorList OMTensorList;
#ifndef TAG
#define TAG ""
#endif
#ifndef ID
#define ID "m"
#endif
#define S(x) __asm__(x TAG)
extern void mock_event(const char *id, const char *what);
extern OMTensorList *mock_run(const char *id, const char *entry, OMTensorList *l);
static const char *eps[] = {"run_main_graph" TAG, "run_second" TAG, NULL};
static int same(const char *a, const char *b) { while (*a && *a == *b) ++a, ++b; return *a == *b; }
__attribute__((constructor)) static void ctor(void) { mock_event(ID, "ctor"); }
__attribute__((destructor)) static void dtor(void) { mock_event(ID, "dtor"); }
#ifndef NO_MAIN
OMTensorList *run_main_graph(OMTensorList *l) S("run_main_graph");
OMTensorList *run_main_graph(OMTensorList *l) { return mock_run(ID, eps[0], l); }
#endif
OMTensorList *run_second(OMTensorList *l) S("run_second");
OMTensorList *run_second(OMTensorList *l) { return mock_run(ID, eps[1], l); }
OMTensorList *run_hidden(OMTensorList *l) S("run_hidden");
OMTensorList *run_hidden(OMTensorList *l) { return mock_run(ID, "run_hidden" TAG, l); }
#ifndef NO_QUERY
const char **omQueryEntryPoints(int64_t *n) S("omQueryEntryPoints");
const char **omQueryEntryPoints(int64_t *n) { mock_event(ID, "query"); if (n) *n = 2; return eps; }
#endif
#ifndef NO_IN
const char *omInputSignature(const char *e) S("omInputSignature");
const char *omInputSignature(const char *e) { return same(e, eps[0]) ? "[ in main of " ID TAG " ]" : same(e, eps[1]) ? "[ in second of " ID TAG " ]" : NULL; }
#endif
#ifndef NO_OUT
const char *omOutputSignature(const char *e) S("omOutputSignature");
const char *omOutputSignature(const char *e) { return same(e, eps[0]) ? "[ out main of " ID TAG " ]" : same(e, eps[1]) ? "" : NULL; }
#endif
#ifndef NO_INFO
const char *omCompilationInfo(void) S("omCompilationInfo");
const char *omCompilationInfo(void) { return "{ info of " ID TAG " }"; }
#endif
#ifndef NO_PRINT
void omInstrumentPrint(void) { mock_event(ID, "print"); }
#endif
