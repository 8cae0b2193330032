/* Stands for the compiler: records how it was started, then does what its specification file says.
   The file is named by a flag -spec=FILE or by FAKE_SPEC. Lines: rec F, rc N, sig N, out TEXT, err TEXT, touch F, sleep MS. */
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
extern char **environ;
int main(int argc, char **argv) {
  if (argc == 2 && !strcmp(argv[1], "--version")) { const char *v = getenv("FAKE_VERSION_RC"); return v ? atoi(v) : 0; }
  const char *spec = getenv("FAKE_SPEC"); for (int i = 1; i < argc; ++i) if (!strncmp(argv[i], "-spec=", 6)) spec = argv[i] + 6;
  FILE *f = spec ? fopen(spec, "r") : NULL; if (!f) return 99;
  static char line[1 << 16]; int rc = 0, sig = 0;
  while (fgets(line, sizeof line, f)) {
    line[strcspn(line, "\n")] = 0; char *v = strchr(line, ' '); if (!v) continue; *v++ = 0;
    if (!strcmp(line, "rec")) { FILE *r = fopen(v, "w"); char cwd[8192]; if (!r) return 98; fprintf(r, "%d", argc); fputc(0, r); for (int i = 0; i < argc; ++i) { fputs(argv[i], r); fputc(0, r); } fputs(getcwd(cwd, sizeof cwd) ? cwd : "?", r); fputc(0, r); for (char **e = environ; *e; ++e) { fputs(*e, r); fputc(0, r); } fclose(r); }
    else if (!strcmp(line, "rc")) rc = atoi(v);
    else if (!strcmp(line, "sig")) sig = atoi(v);
    else if (!strcmp(line, "out") || !strcmp(line, "err")) { size_t n = strlen(v); v[n] = '\n'; if (write(line[0] == 'o' ? 1 : 2, v, n + 1) < 0) {} v[n] = 0; }
    else if (!strcmp(line, "touch")) { int d = open(v, O_CREAT | O_WRONLY, 0644); if (d < 0) return 97; close(d); }
    else if (!strcmp(line, "sleep")) usleep(atoi(v) * 1000); }
  if (sig) { signal(sig, SIG_DFL); raise(sig); }
  return rc; }
