// Test tool executed by generated build rules and as a fake compiler (when called as fcc*).
// Called by the name tl_ARG it takes ARG as the first one.
//   tl ID [-i FILE]... [-o FILE]... [-n NAME FILE] [-b SUFFIX] [-B SUFFIX] [-p] [-g] [-x] [-- ARG...]
// Logs one line per execution into $TL_LOG (fields separated by \037), reads all inputs, writes
//   ID(ARG,..;input;input) to each of outputs. Fails with 3 if an argument is `bad' or an input starts
//   with `bad', with 4 if an input is missing. -g: leaves garbage in outputs when failed.
// -n: reads NAME if it exists, FILE otherwise.
// -E: killing after the command is left to the following `tl -K'.
// $TL_KILL=N:b|a  kills the session leader (autark) in the N-th logged execution before|after writing outputs.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <errno.h>
#include <time.h>
#include <sys/stat.h>

static char logbuf[65536];
static size_t loglen;
static void lg(const char *s) {
  size_t n = strlen(s);
  if (loglen + n + 2 < sizeof(logbuf)) { memcpy(logbuf + loglen, s, n); loglen += n; }
}
static int kill_at, kill_mode;

static void kill_check(const char *p, const char *k) {
  int n = atoi(k), c = 0;
  const char *m = strchr(k, ':');
  FILE *f = fopen(p, "r");
  if (!f) return;
  for (int ch; (ch = fgetc(f)) != EOF; ) if (ch == '\n') ++c;
  fclose(f);
  if (c == n) { kill_at = 1; kill_mode = m ? m[1] : 'b'; }
}
static void log_write(void) {
  const char *p = getenv("TL_LOG");
  if (!p) return;
  int fd = open(p, O_WRONLY | O_APPEND | O_CREAT, 0666);
  if (fd < 0) { fprintf(stderr, "tl: log %s: %s\n", p, strerror(errno)); _exit(9); }
  for (size_t i = 0; i < loglen; ++i) if (logbuf[i] == '\n') logbuf[i] = '\036';
  logbuf[loglen++] = '\n';
  if (write(fd, logbuf, loglen) != (ssize_t) loglen) _exit(9);
  close(fd);
  const char *k = getenv("TL_KILL");
  if (k) kill_check(p, k);
}
static void do_kill(int mode) {
  if (kill_at && kill_mode == mode) {
    kill(getsid(0), SIGKILL);
    usleep(2000);
    _exit(7);
  }
}
static char* rd(const char *path, size_t *len) {
  FILE *f = fopen(path, "r");
  if (!f) return 0;
  size_t cap = 1 << 16, n = 0, r;
  char *b = malloc(cap);
  while ((r = fread(b + n, 1, cap - n - 1, f)) > 0) {
    n += r;
    if (cap - n < 4096) b = realloc(b, cap *= 2);
  }
  b[n] = 0;
  fclose(f);
  if (len) *len = n;
  return b;
}
static void wr(const char *path, const char *s) {
  FILE *f = fopen(path, "w");
  if (!f) { fprintf(stderr, "tl: write %s: %s\n", path, strerror(errno)); _exit(5); }
  fputs(s, f);
  fclose(f);
}

// ---- fake compiler
static char *hdrs[256]; static int nh;
static char body[1 << 16];
static int sleep_ms, bad;
static const char *incdirs[64]; static int ninc;
static void cc_scan(const char *path, int top) {
  char *s = rd(path, 0);
  if (!s) { fprintf(stderr, "fcc: no such file %s\n", path); bad = 1; return; }
  if (!top) {
    for (int i = 0; i < nh; ++i) if (!strcmp(hdrs[i], path)) return;
    hdrs[nh++] = strdup(path);
    strcat(body, "|");
  }
  const char *t = s;   // the text after included headers
  while (!strncmp(t, "#include \"", 10) && strchr(t, '\n')) t = strchr(t, '\n') + 1;
  if (!strncmp(t, "bad", 3)) bad = 1;
  char dir[4096]; snprintf(dir, sizeof dir, "%s", path);
  char *sl = strrchr(dir, '/'); if (sl) *sl = 0; else strcpy(dir, "");
  char *incs[64]; int ni = 0;
  for (char *l = s; *l; ) {
    char *e = strchr(l, '\n');
    char *next = e ? e + 1 : l + strlen(l);
    if (!strncmp(l, "#include \"", 10)) {
      char *q = strchr(l + 10, '"'); if (q) *q = 0;
      incs[ni++] = strdup(l + 10);
    } else if (!strncmp(l, "//sleep ", 8)) sleep_ms = atoi(l + 8);
    else strncat(body, l, next - l);
    l = next;
  }
  for (int i = 0; i < ni; ++i) {
    char p[8192]; int ok = 0;
    if (incs[i][0] == '/') snprintf(p, sizeof p, "%s", incs[i]);
    else if (*dir) snprintf(p, sizeof p, "%s/%s", dir, incs[i]);
    else snprintf(p, sizeof p, "%s", incs[i]);
    ok = !access(p, R_OK);
    for (int k = 0; !ok && k < ninc; ++k) {
      if (!strcmp(incdirs[k], "./") || !strcmp(incdirs[k], ".")) snprintf(p, sizeof p, "./%s", incs[i]);
      else snprintf(p, sizeof p, "%s/%s", incdirs[k], incs[i]);
      ok = !access(p, R_OK);
    }
    if (!ok) { fprintf(stderr, "fcc: %s: no header %s\n", path, incs[i]); bad = 1; continue; }
    cc_scan(p, 0);
  }
}
static const char* base(const char *p) { const char *s = strrchr(p, '/'); return s ? s + 1 : p; }
static void msleep(int ms) { struct timespec t = { ms / 1000, (ms % 1000) * 1000000L }; while (nanosleep(&t, &t) && errno == EINTR) ; }
static int cc_main(int argc, char **argv) {
  const char *src = 0, *obj = 0; int mmd = 0;
  char flags[16384] = "";
  for (int i = 1; i < argc; ++i) {
    if (!strcmp(argv[i], "-c") && i + 1 < argc) src = argv[++i];
    else if (!strcmp(argv[i], "-o") && i + 1 < argc) obj = argv[++i];
    else if (!strcmp(argv[i], "-MMD") || !strcmp(argv[i], "-MD")) mmd = 1;
    else if (!strncmp(argv[i], "-I", 2)) incdirs[ninc++] = argv[i] + 2;
    else { if (*flags) strcat(flags, ","); strcat(flags, argv[i]); if (!strcmp(argv[i], "-bad")) bad = 1; }
  }
  if (!src || !obj) { fprintf(stderr, "fcc: usage\n"); return 2; }
  const char *jl = getenv("TL_JLOG");
  lg(base(argv[0])); lg("\037"); lg(base(src)); lg("\037"); lg(flags);
  if (jl) { char t[64]; lg("\037" "S"); snprintf(t, sizeof t, "\037%d", (int) getpid()); lg(t); }
  log_write();
  do_kill('b');
  cc_scan(src, 1);
  if (sleep_ms) msleep(sleep_ms);
  int rc = 0, die = 0;
  const char *gd = getenv("TL_GATE");
  if (gd) {   // waits for the schedule controller
    char gp[8192], *s = 0;
    snprintf(gp, sizeof gp, "%s/%s", gd, base(src));
    while (!(s = rd(gp, 0)) || !*s) { free(s); msleep(1); }
    bad = s[0] != '0';
    die = s[0] == 'K';
    if (strchr(s, 'n')) {   // much output
      for (int i = 0; i < 3000; ++i) { printf("%s: note %d: something to be said about this source\n", src, i); fprintf(stderr, "%s: warning %d: and more of it\n", src, i); }
      fflush(stdout);
    }
    unlink(gp);
  }
  if (bad) { unlink(obj); rc = 1; fprintf(stderr, "fcc: %s: error\n", src); }
  else {
    char *out = malloc(1 << 17);
    sprintf(out, "%s(%s;%s)", base(argv[0]), flags, body);
    wr(obj, out);
    if (mmd) {
      char d[4096]; snprintf(d, sizeof d, "%s", obj);
      char *p = strrchr(d, '.'); if (p) strcpy(p, ".d"); else strcat(d, ".d");
      FILE *f = fopen(d, "w");
      if (f) {
        int col = fprintf(f, "%s: %s", obj, src);
        for (int i = 0; i < nh; ++i) {
          if (col + strlen(hdrs[i]) > 72) { fprintf(f, " \\\n"); col = 0; }
          col += fprintf(f, " %s", hdrs[i]);
        }
        fputc('\n', f);
        fclose(f);
      }
    }
  }
  do_kill('a');
  if (jl) {
    char t[64];
    loglen = 0; lg(base(argv[0])); lg("\037"); lg(base(src)); lg("\037"); lg(flags); lg("\037" "E");
    snprintf(t, sizeof t, "\037%d\037%d", (int) getpid(), rc); lg(t);
    unsetenv("TL_KILL"); log_write();
  }
  if (die) kill(getpid(), SIGKILL);
  return rc;
}

int main(int argc, char **argv) {
  if (!strncmp(base(argv[0]), "fcc", 3)) return cc_main(argc, argv);
  const char *ins[64], *outs[64]; int ni = 0, no = 0, pr = 0, garb = 0, pwd = 0; const char *bsuf = 0;
  if (argc < 2) return 2;
  const char *id = argv[1];
  if (!strcmp(id, "-K")) {   // end of a check script
    const char *p = getenv("TL_LOG"), *k = getenv("TL_KILL");
    if (p && k) { kill_check(p, k); do_kill('a'); }
    return 0;
  }
  int late = 0;
  int i = 2;
  for ( ; i < argc; ++i) {
    if (!strcmp(argv[i], "-i") && i + 1 < argc) ins[ni++] = argv[++i];
    else if (!strcmp(argv[i], "-n") && i + 2 < argc) { ins[ni++] = access(argv[i + 1], F_OK) ? argv[i + 2] : argv[i + 1]; i += 2; }
    else if (!strcmp(argv[i], "-o") && i + 1 < argc) outs[no++] = argv[++i];
    else if (!strcmp(argv[i], "-B") && i + 1 < argc) bsuf = argv[++i];
    else if (!strcmp(argv[i], "-b") && i + 1 < argc && ni) {
      char *b = malloc(4096);
      snprintf(b, 4000, "%s", base(ins[0]));
      char *p = strrchr(b, '.'); if (p) *p = 0;
      strncat(b, argv[++i], 90);
      ins[ni++] = b;
    }
    else if (!strcmp(argv[i], "-p")) pr = 1;
    else if (!strcmp(argv[i], "-g")) garb = 1;
    else if (!strcmp(argv[i], "-w")) pwd = 1;
    else if (!strcmp(argv[i], "-E")) late = 1;
    else if (!strcmp(argv[i], "--")) { ++i; break; }
    else break;
  }
  char bbuf[4096];
  if (bsuf && ni) {
    snprintf(bbuf, sizeof bbuf, "%s", base(ins[0]));
    char *p = strrchr(bbuf, '.'); if (p) *p = 0;
    strcat(bbuf, bsuf);
    outs[no++] = bbuf;
  }
  lg(id);
  char cw[4096];
  if (pwd && getcwd(cw, sizeof cw)) { lg("\037"); lg(cw); }
  int fail = 0;
  char *out = malloc(1 << 20); size_t n = sprintf(out, "%s(", id);
  if (!strncmp(base(argv[0]), "tl_", 3) && base(argv[0])[3]) argv[--i] = (char*) base(argv[0]) + 3;
  for (int k = i; k < argc; ++k) {
    lg("\037"); lg(argv[k]);
    n += snprintf(out + n, 30000, "%s%s", k > i ? "," : "", argv[k]);
    if (!strcmp(argv[k], "bad")) fail = 3;
  }
  log_write();
  do_kill('b');
  for (int k = 0; k < ni; ++k) {
    size_t l; char *s = rd(ins[k], &l);
    if (!s) { fprintf(stderr, "tl: %s: missing input %s\n", id, ins[k]); fail = 4; continue; }
    if (!strncmp(s, "bad", 3)) fail = 3;
    n += snprintf(out + n, 500000 - n, ";%s", s);
  }
  strcpy(out + n, ")");
  if (fail) {
    if (garb) for (int k = 0; k < no; ++k) wr(outs[k], "garbage");
    do_kill('a');
    return fail;
  }
  for (int k = 0; k < no; ++k) {
    if (k) { char t[16]; snprintf(t, sizeof t, "#%d", k + 1); char *o2 = malloc(strlen(out) + 20); strcpy(o2, out); strcat(o2, t); wr(outs[k], o2); free(o2); }
    else wr(outs[k], out);
  }
  if (pr) puts(out);
  fflush(stdout);
  if (!late) do_kill('a');
  if (getenv("TL_JLOG")) { loglen = 0; lg(id); lg("\037" "E"); log_write(); }
  return 0;
}
