/* Calls an entry point of a program that is linked with the library. */
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

extern void __quantum__rt__initialize(char *);

static void say(const char *s) {
    if (write(1, s, strlen(s)) < 0) _exit(4);
}

int main(int argc, char **argv) {
    if (argc != 4) return 3;
    void *p = dlopen(argv[1], RTLD_NOW | RTLD_LOCAL);
    if (!p) {
        fprintf(stderr, "LINK %s\n", dlerror());
        return 3;
    }
    void (*entry)(void) = (void (*)(void))dlsym(p, argv[2]);
    if (!entry) {
        fprintf(stderr, "LINK %s\n", dlerror());
        return 3;
    }
    for (int n = atoi(argv[3]); n > 0; n--) {
        say("START\n");
        __quantum__rt__initialize(NULL);
        entry();
        say("END\t0\n");
    }
    return 0;
}
