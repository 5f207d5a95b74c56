/* stand-ins for the libraries the sum tool uses; faults and short reads are asked for with variables */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <wchar.h>
#include <signal.h>
#include <sys/types.h>
#include "libcerror.h"
#include "libcfile.h"
#include "libclocale.h"
#include "libcnotify.h"
#include "libcsplit.h"
int libcnotify_verbose = 0;
int demo_live_files = 0, demo_live_splits = 0, demo_open_files = 0;
int demo_reads = 0;            /* number of read calls */
int demo_fail_read = -1;       /* the read call that fails */
int demo_short_read = 0;       /* most bytes returned by a read */
int demo_end_early = -1;       /* the read call that returns 0 */
int demo_fail_size = 0, demo_fail_close = 0;
uint64_t demo_size = 0;        /* size claimed, when not 0 */
void (*demo_on_read)(int) = NULL;
static int num(const char *n) { const char *s = getenv(n); return s != NULL ? atoi(s) : -1; }
static void fail(libcerror_error_t **e, const char *w) { libcerror_error_set(e, LIBCERROR_ERROR_DOMAIN_IO, 0, "%s failed", w); }
struct f { FILE *s; };
int libcfile_file_initialize(libcfile_file_t **f, libcerror_error_t **e) { *f = (libcfile_file_t *) calloc(1, sizeof(struct f)); demo_live_files++; return 1; }
int libcfile_file_free(libcfile_file_t **f, libcerror_error_t **e) { if (*f != NULL) { struct f *x = (struct f *) *f; if (x->s) fclose(x->s); free(x); *f = NULL; demo_live_files--; } return 1; }
int libcfile_file_open(libcfile_file_t *f, const char *n, int a, libcerror_error_t **e) { struct f *x = (struct f *) f; x->s = fopen(n, "rb"); if (x->s == NULL) { fail(e, "open"); return -1; } demo_open_files++; return 1; }
int libcfile_file_close(libcfile_file_t *f, libcerror_error_t **e) { struct f *x = (struct f *) f; if (x->s) { fclose(x->s); x->s = NULL; demo_open_files--; } if (demo_fail_close || num("DEMO_FAIL_CLOSE") > 0) { fail(e, "close"); return -1; } return 0; }
int libcfile_file_get_size(libcfile_file_t *f, uint64_t *n, libcerror_error_t **e) { struct f *x = (struct f *) f; if (demo_fail_size || num("DEMO_FAIL_SIZE") > 0) { fail(e, "size"); return -1; } if (demo_size) { *n = demo_size; return 1; } long p = ftell(x->s); fseek(x->s, 0, SEEK_END); *n = (uint64_t) ftell(x->s); fseek(x->s, p, SEEK_SET); return 1; }
ssize_t libcfile_file_read_buffer(libcfile_file_t *f, uint8_t *b, size_t n, libcerror_error_t **e)
{
	struct f *x = (struct f *) f;
	int k = demo_reads++;
	int s = demo_short_read > 0 ? demo_short_read : num("DEMO_SHORT_READ");
	if (demo_on_read != NULL) demo_on_read(k);
	if (k == num("DEMO_RAISE")) raise(SIGINT);
	if (k == demo_fail_read || k == num("DEMO_FAIL_READ")) { fail(e, "read"); return -1; }
	if (k == demo_end_early || k == num("DEMO_END_EARLY")) return 0;
	if (s > 0 && n > (size_t) s) n = (size_t) s;
	return (ssize_t) fread(b, 1, n, x->s);
}
int libclocale_initialize(const char *d, libcerror_error_t **e) { return 1; }
int libclocale_locale_get_decimal_point(int *d, libcerror_error_t **e) { *d = '.'; return 1; }
int libcnotify_printf(const char *f, ...) { return 1; }
int libcnotify_print_error_backtrace(libcerror_error_t *e) { return 1; }
int libcnotify_stream_set(FILE *s, libcerror_error_t **e) { return 1; }
void libcnotify_verbose_set(int v) { libcnotify_verbose = v; }
struct sp { int n; char **s; };
int libcsplit_narrow_string_split(const char *s, size_t n, char d, libcsplit_narrow_split_string_t **out, libcerror_error_t **e)
{
	struct sp *x = (struct sp *) calloc(1, sizeof(struct sp));
	size_t i, a = 0, l = strlen(s);
	x->s = (char **) calloc(l + 2, sizeof(char *));
	for (i = 0; i <= l; i++)
		if (s[i] == d || s[i] == 0) { x->s[x->n] = (char *) calloc(1, i - a + 1); memcpy(x->s[x->n++], s + a, i - a); a = i + 1; }
	*out = (libcsplit_narrow_split_string_t *) x;
	demo_live_splits++;
	return 1;
}
int libcsplit_narrow_split_string_free(libcsplit_narrow_split_string_t **p, libcerror_error_t **e) { if (*p) { struct sp *x = (struct sp *) *p; int i; for (i = 0; i < x->n; i++) free(x->s[i]); free(x->s); free(x); *p = NULL; demo_live_splits--; } return 1; }
int libcsplit_narrow_split_string_get_number_of_segments(libcsplit_narrow_split_string_t *p, int *n, libcerror_error_t **e) { *n = ((struct sp *) p)->n; return 1; }
int libcsplit_narrow_split_string_get_segment_by_index(libcsplit_narrow_split_string_t *p, int i, char **s, size_t *n, libcerror_error_t **e) { struct sp *x = (struct sp *) p; if (i < 0 || i >= x->n) { fail(e, "segment"); return -1; } *s = x->s[i]; *n = strlen(x->s[i]) + 1; return 1; }
