/* Stands between the Python package and the library: forwards every call and watches the protocol
   (contexts released exactly once, no call on a dead or unknown context, buffers really there). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <pthread.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>

#define MAXC 4096
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static struct { void *p; int n; } live[MAXC];
static long stats[16]; /* 0 alloc 1 dealloc 2 dead-context 3 bad release 4 refresh 5 column 6 config 7 train 8 predict 9 null buffer 10 native errors */
static void *lib;

static void *sym(const char *name) {
    pthread_mutex_lock(&mu);
    if (!lib) { lib = dlopen(getenv("BB_REAL"), RTLD_NOW | RTLD_LOCAL); if (!lib) { fprintf(stderr, "HARNESS shim: %s\n", dlerror()); abort(); } }
    void *s = dlsym(lib, name);
    if (!s) { fprintf(stderr, "HARNESS shim: no %s\n", name); abort(); }
    pthread_mutex_unlock(&mu);
    return s;
}
static void note(int k) { pthread_mutex_lock(&mu); stats[k]++; pthread_mutex_unlock(&mu); }
static int known(void *p) {
    int r = -1;
    pthread_mutex_lock(&mu);
    for (int i = 0; i < MAXC; i++) if (p && live[i].p == p) { r = i; break; }
    if (r < 0) stats[2]++;
    pthread_mutex_unlock(&mu);
    return r;
}
long shim_stat(int k) { pthread_mutex_lock(&mu); long v = stats[k]; pthread_mutex_unlock(&mu); return v; }

int bb_get_numt_nbytes(void) { return ((int (*)(void))sym("bb_get_numt_nbytes"))(); }
void *bb_alloc(int nfeatures) {
    void *p = ((void *(*)(int))sym("bb_alloc"))(nfeatures);
    pthread_mutex_lock(&mu);
    if (p) { stats[0]++; for (int i = 0; i < MAXC; i++) if (!live[i].p) { live[i].p = p; live[i].n = 0; break; } }
    pthread_mutex_unlock(&mu);
    return p;
}
int bb_dealloc(void *p) {
    int ok = 0;
    pthread_mutex_lock(&mu);
    for (int i = 0; i < MAXC; i++) if (p && live[i].p == p) { live[i].p = 0; ok = 1; break; }
    stats[ok ? 1 : 3]++;
    pthread_mutex_unlock(&mu);
    return ok ? ((int (*)(void *))sym("bb_dealloc"))(p) : -1;
}
static int done(int r) { if (r != 0) note(10); return r; }
int bb_refresh_data(void *p, int n) {
    note(4);
    int i = known(p); if (i < 0) return -1;
    int r = ((int (*)(void *, int))sym("bb_refresh_data"))(p, n);
    if (r == 0) { pthread_mutex_lock(&mu); live[i].n = n; pthread_mutex_unlock(&mu); }
    return done(r);
}
int bb_set_feature_data(void *p, int f, const float *c, int cat) {
    note(5);
    if (known(p) < 0) return -1;
    if (!c) { note(9); return -1; }
    return done(((int (*)(void *, int, const float *, int))sym("bb_set_feature_data"))(p, f, c, cat));
}
int bb_set_config_field(void *p, const char *k, const char *v) {
    note(6);
    if (known(p) < 0) return -1;
    return done(((int (*)(void *, const char *, const char *))sym("bb_set_config_field"))(p, k, v));
}
int bb_train(void *p) { note(7); if (known(p) < 0) return -1; return done(((int (*)(void *))sym("bb_train"))(p)); }
int bb_predict(void *p, float *o) {
    note(8);
    if (known(p) < 0) return -1;
    if (!o) { note(9); return -1; }
    return done(((int (*)(void *, float *))sym("bb_predict"))(p, o));
}
