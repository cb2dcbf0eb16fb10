/* Linked into libraries compiled with -finstrument-functions: at every entry and exit of a function the stack
   below it is filled, so that whatever a called function reads without having written it is not zero. */

#include <string.h>

#define QUIET __attribute__((no_instrument_function, noinline))

static QUIET void fill(void) {
    volatile char space[4096];
    for (size_t i = 0; i < sizeof(space); i++) {
        space[i] = 1;
    }
}

QUIET void __cyg_profile_func_enter(void *function, void *site) {
    fill();
}

QUIET void __cyg_profile_func_exit(void *function, void *site) {
    fill();
}
