/* The calls of an instrumented program that runs with the simulator preloaded. */
#define _GNU_SOURCE
#include <dlfcn.h>
static void none(void) {}
static void (*point)(void);
void __sanitizer_cov_trace_pc(void)
{
    if (!point) {
        void (*f)(void) = (void (*)(void))dlsym(RTLD_DEFAULT, "simos_point");
        point = f ? f : none;
    }
    point();
}
