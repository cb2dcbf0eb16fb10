/* Lets calls made by several threads begin at the same moment.  A thread names the function it is
   about to call (verif_aim) and then calls verif_go with the arguments of that function; verif_go
   waits until every thread has come this far and jumps to the function.  The waiting uses relaxed
   operations only and this file is compiled without instrumentation, so that it puts the calls in no
   order that a race detector could see. */

#include <sched.h>
#include <time.h>

static int alive, arrived, generation;
static long met;
static __thread void *target;

#define GET(x) __atomic_load_n(&(x), __ATOMIC_RELAXED)
#define ADD(x, n) __atomic_add_fetch(&(x), n, __ATOMIC_RELAXED)
#define PUT(x, n) __atomic_store_n(&(x), n, __ATOMIC_RELAXED)

void verif_start(int n) { PUT(arrived, 0); PUT(alive, n); }

static void open_gate(void) { PUT(arrived, 0); ADD(generation, 1); }

/* a thread that makes no further calls */
void verif_leave(void) {
    int n = ADD(alive, -1);
    if (n > 0 && GET(arrived) >= n) open_gate();
}

/* how often all threads went through together */
long verif_met(void) { return GET(met); }

void verif_aim(void *f) { target = f; }

__attribute__((used)) void *verif_meet(void) {
    int g = GET(generation);
    if (ADD(arrived, 1) >= GET(alive)) {
        if (GET(alive) > 1) ADD(met, 1);
        open_gate();
        return target;
    }
    struct timespec t0, t;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    for (long k = 0; GET(generation) == g; k++) {
        if (k > 200) sched_yield();
        if (k % 64 == 63) {
            clock_gettime(CLOCK_MONOTONIC, &t);
            if ((t.tv_sec - t0.tv_sec) * 1000000000L + t.tv_nsec - t0.tv_nsec > 20000000L) {
                if (GET(generation) == g) ADD(arrived, -1);
                break;
            }
        }
    }
    return target;
}

__asm__(
    ".text\n.globl verif_go\n.type verif_go, @function\nverif_go:\n"
    "push %rdi\npush %rsi\npush %rdx\npush %rcx\npush %r8\npush %r9\npush %rax\n"
    "sub $128, %rsp\n"
    "movups %xmm0, (%rsp)\nmovups %xmm1, 16(%rsp)\nmovups %xmm2, 32(%rsp)\nmovups %xmm3, 48(%rsp)\n"
    "movups %xmm4, 64(%rsp)\nmovups %xmm5, 80(%rsp)\nmovups %xmm6, 96(%rsp)\nmovups %xmm7, 112(%rsp)\n"
    "call verif_meet@PLT\n"
    "mov %rax, %r11\n"
    "movups (%rsp), %xmm0\nmovups 16(%rsp), %xmm1\nmovups 32(%rsp), %xmm2\nmovups 48(%rsp), %xmm3\n"
    "movups 64(%rsp), %xmm4\nmovups 80(%rsp), %xmm5\nmovups 96(%rsp), %xmm6\nmovups 112(%rsp), %xmm7\n"
    "add $128, %rsp\n"
    "pop %rax\npop %r9\npop %r8\npop %rcx\npop %rdx\npop %rsi\npop %rdi\n"
    "jmp *%r11\n"
    ".size verif_go, .-verif_go\n");
