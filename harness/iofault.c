/* Reading faults, to be preloaded: reads of files whose path ends in a given
   suffix fail with EIO from a given offset on, in a given pass over the
   file (counted by reads at offset zero). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

static char suffix[512];
static long after = 0;
static int pass = 1, seen = 0, fired = 0;

void iofault_set(const char* s, long n, int k) {
  snprintf(suffix, sizeof(suffix), "%s", s ? s : "");
  after = n; pass = k; seen = 0; fired = 0;
}

int iofault_fired(void) {return fired;}

__attribute__((constructor)) static void from_env(void) {
  const char* s = getenv("IOFAULT_PATH");
  if (s != NULL) {
    iofault_set(s, atol(getenv("IOFAULT_AFTER")), atoi(getenv("IOFAULT_PASS")));
  }
}


static void mark(void) {
  fired++;
  const char* m = getenv("IOFAULT_MARK");
  if (m != NULL) {FILE* f = fopen(m, "w"); if (f != NULL) {fclose(f);}}
}

ssize_t read(int fd, void* buf, size_t n) {
  static ssize_t (*real)(int, void*, size_t) = NULL;
  if (real == NULL) {
    real = (ssize_t (*)(int, void*, size_t)) dlsym(RTLD_NEXT, "read");
  }
  if (suffix[0] != '\0') {
    char link[64], path[4096];
    snprintf(link, sizeof(link), "/proc/self/fd/%d", fd);
    ssize_t m = readlink(link, path, sizeof(path) - 1);
    size_t l = strlen(suffix);
    if (m >= (ssize_t) l && memcmp(path + m - l, suffix, l) == 0) {
      off_t at = lseek(fd, 0, SEEK_CUR);
      if (at == 0 && n > 0) {seen++;}
      if (seen == pass) {
        if (at >= after) {mark(); errno = EIO; return -1;}
        if (at + (off_t) n > after) {n = after - at;}
      }
    }
  }
  return real(fd, buf, n);
}

/* Opening faults: the given opening of such files fails. */
#include <fcntl.h>
#include <stdarg.h>
#include <sys/stat.h>

static int refuse(const char* path) {
  static int opened = 0;
  if (getenv("IOFAULT_OPEN") == NULL || suffix[0] == '\0') {return 0;}
  size_t m = strlen(path), l = strlen(suffix);
  if (m < l || memcmp(path + m - l, suffix, l) != 0) {return 0;}
  if (++opened != atoi(getenv("IOFAULT_OPEN"))) {return 0;}
  char s[512];
  strcpy(s, suffix);
  suffix[0] = '\0';
  mark();
  strcpy(suffix, s);
  errno = EMFILE;
  return 1;
}

#define FOPEN(name) \
FILE* name(const char* path, const char* mode) { \
  static FILE* (*real)(const char*, const char*) = NULL; \
  if (real == NULL) { \
    real = (FILE* (*)(const char*, const char*)) dlsym(RTLD_NEXT, #name); \
  } \
  return refuse(path) ? NULL : real(path, mode); \
}
FOPEN(fopen)
FOPEN(fopen64)

#define OPEN(name) \
int name(const char* path, int flags, ...) { \
  static int (*real)(const char*, int, ...) = NULL; \
  if (real == NULL) { \
    real = (int (*)(const char*, int, ...)) dlsym(RTLD_NEXT, #name); \
  } \
  va_list args; \
  va_start(args, flags); \
  int mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(args, int) : 0; \
  va_end(args); \
  return refuse(path) ? -1 : real(path, flags, mode); \
}
OPEN(open)
OPEN(open64)
