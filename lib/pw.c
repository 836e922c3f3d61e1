// Does what a file of steps says:
//   w STREAM FILE PIECE   content of the file is written in pieces
//   c STREAM              the stream is closed
//   f                     the rest is done by a process which is left behind
//   x STATUS | k          exit | killed
//   s MS                  sleep
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

int main(int argc, char **argv) {
  FILE *f = fopen(argv[1], "r");
  char line[8192], name[8192];
  if (!f) return 99;
  signal(SIGPIPE, SIG_IGN);
  while (fgets(line, sizeof(line), f)) {
    int s, n;
    if (line[0] == 'w' && sscanf(line, "w %d %8000s %d", &s, name, &n) == 3) {
      int fd = open(name, O_RDONLY);
      struct stat st;
      if (fd < 0 || fstat(fd, &st)) return 98;
      char *b = malloc(st.st_size + 1);
      if (read(fd, b, st.st_size) != st.st_size) return 97;
      close(fd);
      for (long p = 0; p < st.st_size; ) {
        long m = st.st_size - p < n ? st.st_size - p : n;
        ssize_t k = write(s, b + p, m);
        if (k < 0) break;
        p += k;
      }
      free(b);
    } else if (line[0] == 'c' && sscanf(line, "c %d", &s) == 1) {
      close(s);
    } else if (line[0] == 'f') {
      int p[2];
      char c;
      if (pipe(p)) return 96;
      fflush(0);
      if (fork()) _exit(0);
      close(p[1]);
      while (read(p[0], &c, 1) > 0) ;
      close(p[0]);
    } else if (line[0] == 'x' && sscanf(line, "x %d", &n) == 1) {
      _exit(n);
    } else if (line[0] == 'k') {
      kill(getpid(), SIGKILL);
    } else if (line[0] == 's' && sscanf(line, "s %d", &n) == 1) {
      usleep(n * 1000);
    }
  }
  _exit(0);
}
