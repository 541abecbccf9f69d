/* Files, output and the system log in memory. Include before os.h.
 * H_FOPEN(path, mode): -1 and errno set, or the number of the stream opened with file_in() or file_out(). */
#ifndef VP_FILES_H_
#define VP_FILES_H_
#define OS_CUSTOM_STDIO
#define OS_CUSTOM_OUTPUT
#include <stdio.h>
#include <stdarg.h>
#include <string.h>
#include <errno.h>
#include "vp.h"
#ifdef VP_SX
extern int vp_vsnprintf(char *, size_t, const char *, va_list);
#define FILES_FMT vp_vsnprintf
#else
#define FILES_FMT vsnprintf
#endif
#ifndef FILES_N
#define FILES_N 12
#endif
#ifndef FILES_OUT
#define FILES_OUT 2048
#endif
#ifndef H_FOPEN
#define H_FOPEN(path, mode) ((void)(path), (void)(mode), errno = ENOENT, -1)
#endif
struct vp_file {
	int open, closes, wr, eof;
	const char *in;
	size_t in_n, pos;
	char out[FILES_OUT];	/* since the last file_take() */
	size_t out_n, flushed;
};
static struct vp_file vp_files[FILES_N] = { { .open = 1 }, { .open = 1, .wr = 1 }, { .open = 1, .wr = 1 } };
static int vp_files_n = 3, vp_files_live;
static int vp_syslog_open, vp_syslog_n, vp_syslog_pri, vp_syslog_opens, vp_syslog_closes;
static char vp_syslog_text[FILES_OUT];
FILE *vp_stdin = (FILE *)&vp_files[0], *vp_stdout = (FILE *)&vp_files[1], *vp_stderr = (FILE *)&vp_files[2];
static VP_UNUSED int file_in(const char *in, size_t n)
{
	struct vp_file *f = &vp_files[vp_files_n];

	f->in = in;
	f->in_n = n;
	return vp_files_n++;
}
static VP_UNUSED int file_out(void)
{
	vp_files[vp_files_n].wr = 1;
	return vp_files_n++;
}
FILE *vp_fopen(const char *p, const char *m)
{
	int i = H_FOPEN(p, m);

	if (i < 0)
		return NULL;
	vp_files[i].open = 1;
	vp_files_live++;
	return (FILE *)&vp_files[i];
}
static struct vp_file *vp_filep(FILE *o)
{
	struct vp_file *f = (struct vp_file *)o;

	check(f != NULL, "no operation on a stream which is not there");
	check(f->open, "no operation on a closed stream");
	return f;
}
int vp_fclose(FILE *o)
{
	struct vp_file *f = vp_filep(o);

	f->open = 0;
	f->closes++;
	f->flushed = f->out_n;
	vp_files_live--;
	return 0;
}
int vp_fgetc(FILE *o)
{
	struct vp_file *f = vp_filep(o);

	if (f->pos >= f->in_n) {
		f->eof = 1;
		return EOF;
	}
	return (unsigned char)f->in[f->pos++];
}
char *vp_fgets(char *s, int n, FILE *o)
{
	int i = 0, c;

	while (i < n - 1) {
		c = vp_fgetc(o);
		if (c == EOF)
			break;
		s[i++] = (char)c;
		if (sx_branch(c == '\n'))
			break;
	}
	if (i == 0)
		return NULL;
	s[i] = '\0';
	return s;
}
size_t vp_fread(void *p, size_t s, size_t n, FILE *o)
{
	size_t i;
	int c;

	for (i = 0; i < s * n; i++) {
		c = vp_fgetc(o);
		if (c == EOF)
			break;
		((char *)p)[i] = (char)c;
	}
	return s ? i / s : 0;
}
extern void *vp_realloc(void *, size_t);
ssize_t vp_getline(char **l, size_t *n, FILE *o)
{
	size_t i = 0;
	int c;

	for (;;) {
		if (*l == NULL || i + 1 >= *n) {
			char *q = vp_realloc(*l, i + 120);

			if (q == NULL)
				return -1;
			*l = q;
			*n = i + 120;
		}
		c = vp_fgetc(o);
		if (c == EOF)
			break;
		(*l)[i++] = (char)c;
		if (sx_branch(c == '\n'))
			break;
	}
	(*l)[i] = '\0';
	return i == 0 ? -1 : (ssize_t)i;
}
int vp_feof(FILE *o) { return vp_filep(o)->eof; }
int vp_ferror(FILE *o) { (void)vp_filep(o); return 0; }
int vp_fflush(FILE *o)
{
	struct vp_file *f;

	if (o == NULL)
		return 0;
	f = vp_filep(o);
	f->flushed = f->out_n;
	return 0;
}
int vp_vfprintf(FILE *o, const char *fmt, va_list a)
{
	struct vp_file *f = vp_filep(o);
	int n;

	check(f->wr, "only a stream opened for it is written to");
	n = FILES_FMT(f->out + f->out_n, FILES_OUT - f->out_n, fmt, a);
	check(n >= 0 && f->out_n + (size_t)n < FILES_OUT, "model: output fits");
	f->out_n += (size_t)n;
	if (o == vp_stderr)	/* not buffered */
		f->flushed = f->out_n;
	return n;
}
int vp_vprintf(const char *fmt, va_list a) { return vp_vfprintf(vp_stdout, fmt, a); }
int vp_fprintf(FILE *o, const char *fmt, ...)
{
	va_list a;
	int r;

	va_start(a, fmt);
	r = vp_vfprintf(o, fmt, a);
	va_end(a);
	return r;
}
int vp_printf(const char *fmt, ...)
{
	va_list a;
	int r;

	va_start(a, fmt);
	r = vp_vfprintf(vp_stdout, fmt, a);
	va_end(a);
	return r;
}
int vp_fputs(const char *s, FILE *o) { return vp_fprintf(o, "%s", s); }
int vp_puts(const char *s) { return vp_fprintf(vp_stdout, "%s\n", s); }
int vp_fputc(int c, FILE *o) { vp_fprintf(o, "%c", c); return c; }
size_t vp_fwrite(const void *p, size_t s, size_t n, FILE *o)
{
	struct vp_file *f = vp_filep(o);

	check(f->wr, "only a stream opened for it is written to");
	check(f->out_n + s * n < FILES_OUT, "model: output fits");
	memcpy(f->out + f->out_n, p, s * n);
	f->out_n += s * n;
	if (o == vp_stderr)
		f->flushed = f->out_n;
	return n;
}
void vp_perror(const char *s) { vp_fprintf(vp_stderr, "%s: error\n", s); }
int vp_setvbuf(FILE *o, char *b, int m, size_t n) { (void)o; (void)b; (void)m; (void)n; return 0; }
void vp_setlinebuf(FILE *o) { (void)o; }
int vp_putchar(int c) { return vp_fputc(c, vp_stdout); }
void vp_openlog(const char *i, int o, int f)
{
	(void)i; (void)o; (void)f;
	vp_syslog_open = 1;
	vp_syslog_opens++;
}
void vp_closelog(void)
{
	check(vp_syslog_open, "the system log is closed once");
	vp_syslog_open = 0;
	vp_syslog_closes++;
}
void vp_vsyslog(int p, const char *fmt, va_list a)
{
	int n = FILES_FMT(vp_syslog_text, FILES_OUT, fmt, a);

	check(n >= 0 && n < FILES_OUT, "model: output fits");
	check(vp_syslog_open, "the system log is written to while it is open");
	vp_syslog_pri = p;
	vp_syslog_n++;
}
void vp_syslog(int p, const char *fmt, ...)
{
	va_list a;

	va_start(a, fmt);
	vp_vsyslog(p, fmt, a);
	va_end(a);
}
static VP_UNUSED void vp_files_touch(void) { (void)vp_files_live; (void)vp_syslog_pri; }
#endif
