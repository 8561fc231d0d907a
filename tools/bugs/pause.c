// LD_PRELOAD: the first call of the function PAUSE_FN (rename, mkdir or open) with PAUSE_AT in its (first) path creates PAUSE.here and waits for PAUSE.go
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
static void hold(const char *fn, const char *path) {
    static int done;
    const char *f = getenv("PAUSE_FN"), *at = getenv("PAUSE_AT"), *p = getenv("PAUSE");
    if (!f || !at || !p || done || strcmp(f, fn) || !strstr(path, at)) return;
    done = 1;
    char here[4096], go[4096];
    snprintf(here, sizeof here, "%s.here", p);
    snprintf(go, sizeof go, "%s.go", p);
    int (*o)(const char *, int, ...) = dlsym(RTLD_NEXT, "open");
    close(o(here, O_CREAT | O_WRONLY, 0600));
    for (int i = 0; i < 6000 && access(go, F_OK); i++) usleep(10000);
}
int rename(const char *a, const char *b) { hold("rename", a); return ((int (*)(const char *, const char *))dlsym(RTLD_NEXT, "rename"))(a, b); }
int mkdir(const char *a, mode_t m) { hold("mkdir", a); return ((int (*)(const char *, mode_t))dlsym(RTLD_NEXT, "mkdir"))(a, m); }
int open64(const char *a, int f, ...) {
    va_list v; va_start(v, f); int m = va_arg(v, int); va_end(v);
    hold("open", a);
    return ((int (*)(const char *, int, ...))dlsym(RTLD_NEXT, "open64"))(a, f, m);
}
int open(const char *a, int f, ...) {
    va_list v; va_start(v, f); int m = va_arg(v, int); va_end(v);
    hold("open", a);
    return ((int (*)(const char *, int, ...))dlsym(RTLD_NEXT, "open"))(a, f, m);
}
