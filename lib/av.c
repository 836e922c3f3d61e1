// Test command: appends its working directory and arguments to $AV_OUT.
// av: nothing more, pv: prints its arguments, pf: fails.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>

static char *b;
static size_t n, cap;
static void add(const char *s, size_t l) {
  if (n + l + 2 > cap) b = realloc(b, cap = (n + l + 2) * 2);
  memcpy(b + n, s, l);
  n += l;
}

int main(int argc, char **argv) {
  char cwd[8192];
  const char *name = strrchr(argv[0], '/');
  name = name ? name + 1 : argv[0];
  const char *p = getenv("AV_OUT");
  if (!getcwd(cwd, sizeof(cwd))) return 9;
  add("\036X\037", 3);
  add(cwd, strlen(cwd));
  for (int i = 0; i < argc; ++i) {
    const char *a = i ? argv[i] : name;
    add("\037", 1);
    for (; *a; ++a) add(*a == '\n' ? "\035" : a, 1);
  }
  add("\n", 1);
  if (p) {
    int fd = open(p, O_WRONLY | O_APPEND);
    if (fd < 0 || write(fd, b, n) != (ssize_t) n) return 9;
    close(fd);
  }
  if (!strcmp(name, "pv")) {
    for (int i = 1; i < argc; ++i) {
      if (i > 1) putchar(' ');
      fputs(argv[i], stdout);
    }
    fputs(" \n\n", stdout);
  }
  return strcmp(name, "pf") ? 0 : 3;
}
