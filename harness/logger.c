/* the logger of an FMI 2.0 importer: the message is a format that the further arguments complete */
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>

typedef void (*sink)(void *, const char *, int, const char *, const char *);

static __thread sink mine;
static sink any;

#define to (mine ? mine : any)

void verif_sink(sink s) { mine = any = s; }

void verif_log2(void *env, const char *name, int status, const char *category, const char *message, ...) {
    if (!message) {
        to(env, name, status, category, message);
        return;
    }
    va_list args;
    va_start(args, message);
    int n = vsnprintf(NULL, 0, message, args);
    va_end(args);
    char *text = n < 0 ? NULL : malloc((size_t)n + 1);
    if (text) {
        va_start(args, message);
        vsnprintf(text, (size_t)n + 1, message, args);
        va_end(args);
    }
    to(env, name, status, category, text ? text : message);
    free(text);
}
