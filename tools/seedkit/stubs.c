/* a minimal libcerror for the demonstrations */
#include "libcerror.h"
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
struct demo_error { int domain; int code; };
static int live = 0;
int demo_live_errors(void) { return live; }
void libcerror_error_set(libcerror_error_t **error, int d, int c, const char *f, ...)
{
	char buf[1024];
	va_list a;
	va_start(a, f);
	vsnprintf(buf, sizeof(buf), f, a);
	va_end(a);
	if (error == NULL) return;
	if (*error == NULL) { *error = (libcerror_error_t *) calloc(1, sizeof(struct demo_error)); live++; ((struct demo_error *) *error)->domain = d; ((struct demo_error *) *error)->code = c; }
}
void libcerror_error_free(libcerror_error_t **error)
{
	if (error != NULL && *error != NULL) { free(*error); *error = NULL; live--; }
}
int libcerror_error_fprint(libcerror_error_t *e, FILE *s) { (void) e; (void) s; return 0; }
int libcerror_error_sprint(libcerror_error_t *e, char *s, size_t n) { (void) e; (void) s; (void) n; return 0; }
int libcerror_error_backtrace_fprint(libcerror_error_t *e, FILE *s) { (void) e; (void) s; return 0; }
int libcerror_error_backtrace_sprint(libcerror_error_t *e, char *s, size_t n) { (void) e; (void) s; (void) n; return 0; }
