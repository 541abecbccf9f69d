/* C library functions the symbolic execution needs bodies for (symbolic execution only; the native replay uses the real ones) */
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#include <string.h>
#include <errno.h>
#include <sys/socket.h>
#include <netinet/in.h>

extern void sx_check(unsigned long, const char *);
extern int sx_self(void);
static int sx_errno[64], sx_errno_more[1200];
int *__errno_location(void) { return sx_self() < 64 ? &sx_errno[sx_self()] : &sx_errno_more[sx_self() - 64]; }
static char sx_files[3];
void *stdin = &sx_files[0], *stdout = &sx_files[1], *stderr = &sx_files[2];

size_t strlen(const char *s)
{
	size_t i;
	for (i = 0; s[i] != '\0'; i++) ;
	return i;
}
char *strcpy(char *d, const char *s)
{
	size_t i = 0;
	while ((d[i] = s[i]) != '\0')
		i++;
	return d;
}
char *strcat(char *d, const char *s)
{
	strcpy(d + strlen(d), s);
	return d;
}

size_t vp_strnlen(const char *s, size_t n)
{
	size_t i;
	for (i = 0; i < n && s[i] != '\0'; i++) ;
	return i;
}
char *vp_strncpy(char *d, const char *s, size_t n)
{
	size_t i;
	_Bool end = 0;
	for (i = 0; i < n; i++) {
		if (!end) {
			d[i] = s[i];
			end = s[i] == '\0';
		} else {
			d[i] = '\0';
		}
	}
	return d;
}
char *vp_stpcpy(char *d, const char *s)
{
	size_t i = 0;
	while ((d[i] = s[i]) != '\0')
		i++;
	return d + i;
}
char *vp_strchr(const char *s, int c)
{
	size_t i;
	for (i = 0;; i++) {
		if (s[i] == (char)c)
			return (char *)s + i;
		if (s[i] == '\0')
			return NULL;
	}
}
char *vp_strrchr(const char *s, int c)
{
	char *r = NULL;
	size_t i;
	for (i = 0;; i++) {
		if (s[i] == (char)c)
			r = (char *)s + i;
		if (s[i] == '\0')
			return r;
	}
}
int vp_strcmp(const char *a, const char *b)
{
	size_t i;
	for (i = 0;; i++) {
		unsigned char x = (unsigned char)a[i], y = (unsigned char)b[i];
		if (x != y)
			return x < y ? -1 : 1;
		if (x == 0)
			return 0;
	}
}
int vp_strncmp(const char *a, const char *b, size_t n)
{
	size_t i;
	for (i = 0; i < n; i++) {
		unsigned char x = (unsigned char)a[i], y = (unsigned char)b[i];
		if (x != y)
			return x < y ? -1 : 1;
		if (x == 0)
			return 0;
	}
	return 0;
}
int vp_isdigit(int c) { return (c >= '0') & (c <= '9'); }
int vp_islower(int c) { return (c >= 'a') & (c <= 'z'); }
int vp_isupper(int c) { return (c >= 'A') & (c <= 'Z'); }
int vp_isalpha(int c) { return vp_islower(c) | vp_isupper(c); }
int vp_isspace(int c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
int vp_isxdigit(int c) { return vp_isdigit(c) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')); }
int vp_toupper(int c) { return c - 32 * vp_islower(c); }
int vp_tolower(int c) { return c + 32 * vp_isupper(c); }
int vp_strcasecmp(const char *a, const char *b)
{
	size_t i;
	for (i = 0;; i++) {
		int x = vp_tolower((unsigned char)a[i]), y = vp_tolower((unsigned char)b[i]);
		if (x != y)
			return x < y ? -1 : 1;
		if (x == 0)
			return 0;
	}
}
int vp_strncasecmp(const char *a, const char *b, size_t n)
{
	size_t i;
	for (i = 0; i < n; i++) {
		int x = vp_tolower((unsigned char)a[i]), y = vp_tolower((unsigned char)b[i]);
		if (x != y)
			return x < y ? -1 : 1;
		if (x == 0)
			return 0;
	}
	return 0;
}
char *vp_strstr(const char *h, const char *n)
{
	size_t i, j;
	for (i = 0;; i++) {
		for (j = 0; n[j] != '\0' && h[i + j] == n[j]; j++) ;
		if (n[j] == '\0')
			return (char *)h + i;
		if (h[i] == '\0')
			return NULL;
	}
}
size_t vp_strspn(const char *s, const char *set)
{
	size_t i;
	for (i = 0; s[i] != '\0' && vp_strchr(set, s[i]) != NULL; i++) ;
	return i;
}
size_t vp_strcspn(const char *s, const char *set)
{
	size_t i;
	for (i = 0; s[i] != '\0' && vp_strchr(set, s[i]) == NULL; i++) ;
	return i;
}
void *vp_memchr(const void *s, int c, size_t n)
{
	const unsigned char *p = s;
	size_t i;
	for (i = 0; i < n; i++)
		if (p[i] == (unsigned char)c)
			return (void *)(p + i);
	return NULL;
}
int vp_memcmp(const void *a, const void *b, size_t n)
{
	const unsigned char *x = a, *y = b;
	size_t i;
	for (i = 0; i < n; i++)
		if (x[i] != y[i])
			return x[i] < y[i] ? -1 : 1;
	return 0;
}
int vp_isalnum(int c) { return vp_isalpha(c) | vp_isdigit(c); }
int vp_isprint(int c) { return (c >= 32) & (c < 127); }
int vp_isgraph(int c) { return (c > 32) & (c < 127); }
int vp_ispunct(int c) { return vp_isgraph(c) & !vp_isalnum(c); }
int vp_iscntrl(int c) { return ((c >= 0) & (c < 32)) | (c == 127); }
int vp_isblank(int c) { return (c == ' ') | (c == '\t'); }
char *vp_strncat(char *d, const char *s, size_t n)
{
	size_t k = strlen(d), i;
	for (i = 0; i < n && s[i] != '\0'; i++)
		d[k + i] = s[i];
	d[k + i] = '\0';
	return d;
}
char *vp_strpbrk(const char *s, const char *set)
{
	size_t i = vp_strcspn(s, set);
	return s[i] != '\0' ? (char *)s + i : NULL;
}
char *vp_strtok_r(char *s, const char *set, char **save)
{
	size_t n;
	if (s == NULL)
		s = *save;
	s += vp_strspn(s, set);
	if (*s == '\0') {
		*save = s;
		return NULL;
	}
	n = vp_strcspn(s, set);
	*save = s + n;
	if (s[n] != '\0') {
		s[n] = '\0';
		++*save;
	}
	return s;
}
char *vp_strsep(char **sp, const char *set)
{
	char *s = *sp;
	size_t n;
	if (s == NULL)
		return NULL;
	n = vp_strcspn(s, set);
	if (s[n] != '\0') {
		s[n] = '\0';
		*sp = s + n + 1;
	} else {
		*sp = NULL;
	}
	return s;
}
char *vp_strchrnul(const char *s, int c)
{
	size_t i;
	for (i = 0; s[i] != '\0' && s[i] != (char)c; i++) ;
	return (char *)s + i;
}
void *vp_mempcpy(void *d, const void *s, size_t n)
{
	memcpy(d, s, n);
	return (char *)d + n;
}
void *vp_memrchr(const void *s, int c, size_t n)
{
	const unsigned char *p = s;
	while (n-- > 0)
		if (p[n] == (unsigned char)c)
			return (void *)(p + n);
	return NULL;
}
char *vp_strerror(int e)
{
	static char err[] = "error";
	(void)e;
	return err;
}

/* ---- numbers ---- */
/* the value of a letter or digit, without a case distinction */
static unsigned int vp_digit(unsigned char c) { return (c & (c < 64 ? 15u : 31u)) + 9u * (c >> 6); }
unsigned long vp_strtoul(const char *s, char **end, int base)
{
	size_t i = 0;
	unsigned long v = 0;
	_Bool neg = 0, any = 0, ovf = 0;
	unsigned int n = 0;

	while (vp_isspace((unsigned char)s[i]))
		i++;
	if (s[i] == '+' || s[i] == '-')
		neg = s[i++] == '-';
	if (base == 0)
		base = 10;	/* octal and hexadecimal prefixes: outside the model */
	for (;; i++) {
		unsigned char c = (unsigned char)s[i];
		unsigned int d = vp_digit(c);
		if (base == 10 ? !vp_isdigit(c) : base == 16 ? !vp_isxdigit(c) : !vp_isalnum(c) || d >= (unsigned int)base) break;
		any = 1;
		if (n++ >= 15)
		if (v > ~0UL / (unsigned long)base || (v == ~0UL / (unsigned long)base && d > ~0UL % (unsigned long)base))
			ovf = 1;
		v = v * (unsigned long)base + d;
	}
	if (end != NULL)
		*end = (char *)(any ? s + i : s);
	if (ovf) {
		errno = ERANGE;
		return ~0UL;
	}
	return neg ? 0UL - v : v;
}
long vp_strtol(const char *s, char **end, int base)
{
	size_t i = 0;
	unsigned long v;
	int was = errno;
	_Bool neg;

	while (vp_isspace((unsigned char)s[i]))
		i++;
	neg = s[i] == '-';
	errno = 0;
	v = vp_strtoul(s, end, base);
	if (errno == ERANGE)
		return neg ? (long)(1UL << 63) : (long)(~0UL >> 1);
	errno = was;
	if (neg ? 0UL - v > 1UL << 63 : v >= 1UL << 63) {
		errno = ERANGE;
		return neg ? (long)(1UL << 63) : (long)(~0UL >> 1);
	}
	return (long)v;
}
int vp_atoi(const char *s) { return (int)vp_strtol(s, NULL, 10); }
long vp_atol(const char *s) { return vp_strtol(s, NULL, 10); }
long long vp_atoll(const char *s) { return vp_strtol(s, NULL, 10); }
long long vp_strtoll(const char *s, char **end, int base) { return vp_strtol(s, end, base); }
unsigned long long vp_strtoull(const char *s, char **end, int base) { return vp_strtoul(s, end, base); }
intmax_t vp_strtoimax(const char *s, char **end, int base) { return vp_strtol(s, end, base); }
uintmax_t vp_strtoumax(const char *s, char **end, int base) { return vp_strtoul(s, end, base); }

/* sscanf: integer conversions %[h][l][l]{u,d,x}, %Ns, %n, white space and literals */
int vp_sscanf(const char *in, const char *f, ...)
{
	va_list ap;
	size_t i = 0, k = 0;
	int got = 0;

	va_start(ap, f);
	while (f[k] != '\0') {
		if (f[k] == ' ') {
			while (vp_isspace((unsigned char)in[i])) i++;
			k++;
		} else if (f[k] != '%') {
			if (in[i] != f[k])
				break;
			i++; k++;
		} else {
			unsigned int width = 0, h = 0, l = 0;
			_Bool sup = 0;
			k++;
			if (f[k] == '*') { sup = 1; k++; }
			while (f[k] >= '0' && f[k] <= '9') width = width * 10 + (unsigned int)(f[k++] - '0');
			while (f[k] == 'h') { h++; k++; }
			while (f[k] == 'l') { l++; k++; }
			if (f[k] == 'u' || f[k] == 'd' || f[k] == 'i' || f[k] == 'x') {
				unsigned int n = 0, base = f[k] == 'x' ? 16 : 10;
				unsigned long v = 0;
				_Bool neg = 0, ovf = 0;
				while (vp_isspace((unsigned char)in[i])) i++;
				if (in[i] == '\0') { if (got == 0) got = -1; break; }
				if (in[i] == '+' || in[i] == '-') neg = in[i++] == '-';
				while ((width == 0 || n < width)) {
					unsigned char c = (unsigned char)in[i];
					unsigned int d = vp_digit(c);
					if (base == 16 ? !vp_isxdigit(c) : !vp_isdigit(c)) break;
					if (n >= 15 && (v > ~0UL / base || (v == ~0UL / base && d > ~0UL % base))) ovf = 1;
					v = v * base + d;
					n++; i++;
				}
				if (n == 0) break;
				if (ovf) v = ~0UL;
				else if (neg) v = 0UL - v;
				if (!sup) {
					if (l > 0) *va_arg(ap, unsigned long *) = v;
					else if (h == 1) *va_arg(ap, unsigned short *) = (unsigned short)v;
					else if (h == 2) *va_arg(ap, unsigned char *) = (unsigned char)v;
					else *va_arg(ap, unsigned int *) = (unsigned int)v;
					got++;
				}
				k++;
			} else if (f[k] == 's') {
				char *d = sup ? NULL : va_arg(ap, char *);
				unsigned int n = 0;
				while (vp_isspace((unsigned char)in[i])) i++;
				if (in[i] == '\0') { if (got == 0) got = -1; break; }
				while (in[i] != '\0' && !vp_isspace((unsigned char)in[i]) && (width == 0 || n < width)) {
					if (!sup) d[n] = in[i];
					n++; i++;
				}
				if (!sup) { d[n] = '\0'; got++; }
				k++;
			} else if (f[k] == 'c') {
				if (in[i] == '\0') { if (got == 0) got = -1; break; }
				if (!sup) { *va_arg(ap, char *) = in[i]; got++; }
				i++; k++;
			} else if (f[k] == 'n') {
				*va_arg(ap, int *) = (int)i;
				k++;
			} else {
				sx_check(0, "model: sscanf conversion supported");
				break;
			}
		}
	}
	va_end(ap);
	return got;
}

/* printf family: %s %.*s %Ns %c %d %i %u %x %X %p %% with h/l/z lengths, zero padding and width */
static size_t vp_put(char *out, size_t cap, size_t pos, char c)
{
	if (pos < cap)
		out[pos] = c;
	return pos + 1;
}
int vp_vsnprintf(char *out, size_t size, const char *f, va_list ap)
{
	size_t cap = size == 0 ? 0 : size - 1;
	size_t pos = 0, k = 0;

	while (f[k] != '\0') {
		if (f[k] != '%') {
			pos = vp_put(out, cap, pos, f[k]);
			k++;
			continue;
		}
		{
			unsigned int width = 0, h = 0, l = 0;
			int prec = -1;
			_Bool zero = 0, left = 0;
			k++;
			while (f[k] == '0' || f[k] == '-' || f[k] == '#' || f[k] == '+' || f[k] == ' ') {
				if (f[k] == '0') zero = 1;
				if (f[k] == '-') left = 1;
				k++;
			}
			if (f[k] == '*') { width = (unsigned int)va_arg(ap, int); k++; }
			while (f[k] >= '0' && f[k] <= '9') width = width * 10 + (unsigned int)(f[k++] - '0');
			if (f[k] == '.') {
				k++;
				prec = 0;
				if (f[k] == '*') { prec = va_arg(ap, int); k++; }
				while (f[k] >= '0' && f[k] <= '9') prec = prec * 10 + (f[k++] - '0');
			}
			while (f[k] == 'h') { h++; k++; }
			while (f[k] == 'l' || f[k] == 'z' || f[k] == 'j') { l++; k++; }
			if (f[k] == '%') {
				pos = vp_put(out, cap, pos, '%');
			} else if (f[k] == 'c') {
				pos = vp_put(out, cap, pos, (char)va_arg(ap, int));
			} else if (f[k] == 's') {
				const char *s = va_arg(ap, const char *);
				size_t i;
				for (i = 0; (prec < 0 || i < (size_t)prec) && s[i] != '\0'; i++)
					pos = vp_put(out, cap, pos, s[i]);
				for (; i < width; i++)
					pos = vp_put(out, cap, pos, ' ');
			} else if (f[k] == 'd' || f[k] == 'i' || f[k] == 'u' || f[k] == 'x' || f[k] == 'X') {
				unsigned long v;
				_Bool neg = 0;
				char tmp[64];
				unsigned int n = 0, base = (f[k] == 'x' || f[k] == 'X') ? 16 : 10, maxd, least;
				if (f[k] == 'd' || f[k] == 'i') {
					long sv = l > 0 ? va_arg(ap, long) : (long)va_arg(ap, int);
					if (h == 1) sv = (short)sv;
					if (h == 2) sv = (signed char)sv;
					if (sv < 0)
						neg = 1;
					v = neg ? 0UL - (unsigned long)sv : (unsigned long)sv;
				} else {
					v = l > 0 ? va_arg(ap, unsigned long) : (unsigned long)va_arg(ap, unsigned int);
					if (h == 1) v = (unsigned short)v;
					if (h == 2) v = (unsigned char)v;
				}
				maxd = base == 16 ? (l > 0 ? 16 : h == 1 ? 4 : h == 2 ? 2 : 8) : (h == 1 ? 5 : h == 2 ? 3 : l > 0 ? 20 : 10);
				/* digits there are in any case, then as many as the value has */
				if (prec >= 0) {
					least = (unsigned int)prec;
					zero = 0;
				} else {
					least = zero && !left ? width - (neg && width > 0) : 1;
				}
				sx_check(least <= 60, "model: printf precision supported");
				while (n < least || (n < maxd && v != 0)) {
					if (base == 16) {
						unsigned int d = (unsigned int)v & 15;
						tmp[n++] = (char)('0' + d + (d > 9) * (f[k] == 'x' ? 39u : 7u));
						v >>= 4;
					} else {
						tmp[n++] = (char)('0' + (unsigned int)(v % 10));
						v /= 10;
					}
				}
				if (neg && zero) { pos = vp_put(out, cap, pos, '-'); if (width > 0) width--; }
				if (neg && !zero && width > 0) width--;
				if (!left) {
					unsigned int w;
					for (w = n; w < width; w++)
						pos = vp_put(out, cap, pos, zero ? '0' : ' ');
				}
				if (neg && !zero) pos = vp_put(out, cap, pos, '-');
				{
					unsigned int w = n;
					while (w > 0)
						pos = vp_put(out, cap, pos, tmp[--w]);
				}
				if (left) {
					unsigned int w;
					for (w = n; w < width; w++)
						pos = vp_put(out, cap, pos, ' ');
				}
			} else {
				sx_check(0, "model: printf conversion supported");
			}
			k++;
		}
	}
	if (size > 0)
		out[pos < cap ? pos : cap] = '\0';
	return (int)pos;
}
int vp_snprintf(char *out, size_t size, const char *f, ...)
{
	va_list ap;
	int r;
	va_start(ap, f);
	r = vp_vsnprintf(out, size, f, ap);
	va_end(ap);
	return r;
}
int vp_vsprintf(char *out, const char *f, va_list ap) { return vp_vsnprintf(out, 0x7fffffff, f, ap); }
int vp_sprintf(char *out, const char *f, ...)
{
	va_list ap;
	int r;
	va_start(ap, f);
	r = vp_vsnprintf(out, 0x7fffffff, f, ap);
	va_end(ap);
	return r;
}

/* ---- addresses ---- */
const char *vp_inet_ntop(int af, const void *src, char *dst, socklen_t size)
{
	const unsigned char *b = src;
	size_t pos = 0, cap = size;
	int i;

	if (af == AF_INET) {
		for (i = 0; i < 4; i++) {
			unsigned int v = b[i];
			if (v >= 100) pos = vp_put(dst, cap, pos, (char)('0' + v / 100));
			if (v >= 10) pos = vp_put(dst, cap, pos, (char)('0' + (v / 10) % 10));
			pos = vp_put(dst, cap, pos, (char)('0' + v % 10));
			if (i < 3) pos = vp_put(dst, cap, pos, '.');
		}
		if (pos + 1 > size) { errno = ENOSPC; return NULL; }
		dst[pos] = '\0';
		return dst;
	}
	if (af == AF_INET6) {
		/* as RFC 5952, with glibc's choice of mapped and compatible forms */
		unsigned int w[8], best = 8, bl = 0, i, j;
		for (i = 0; i < 8; i++)
			w[i] = (unsigned int)b[2 * i] << 8 | b[2 * i + 1];
		for (i = 0; i < 8; i++) {
			for (j = i; j < 8 && w[j] == 0; j++) ;
			if (j - i > bl) { best = i; bl = j - i; }
		}
		if (bl < 2) { best = 8; bl = 0; }
		for (i = 0; i < 8; i++) {
			if (bl != 0 && i >= best && i < best + bl) {
				if (i == best) pos = vp_put(dst, cap, pos, ':');
				continue;
			}
			if (i != 0) pos = vp_put(dst, cap, pos, ':');
			if (i == 6 && best == 0 && (bl == 6 || (bl == 5 && w[5] == 0xffff))) {
				char q[16];
				vp_inet_ntop(AF_INET, b + 12, q, 16);
				for (j = 0; q[j] != '\0'; j++) pos = vp_put(dst, cap, pos, q[j]);
				i = 8;
				break;
			}
			if (w[i] >= 0x1000) pos = vp_put(dst, cap, pos, "0123456789abcdef"[w[i] >> 12]);
			if (w[i] >= 0x100) pos = vp_put(dst, cap, pos, "0123456789abcdef"[(w[i] >> 8) & 15]);
			if (w[i] >= 0x10) pos = vp_put(dst, cap, pos, "0123456789abcdef"[(w[i] >> 4) & 15]);
			pos = vp_put(dst, cap, pos, "0123456789abcdef"[w[i] & 15]);
		}
		if (bl != 0 && best + bl == 8 && i == 8) {
			if (!(best == 0 && bl >= 6 && bl < 8)) pos = vp_put(dst, cap, pos, ':');
		}
		if (pos + 1 > size) { errno = ENOSPC; return NULL; }
		dst[pos] = '\0';
		return dst;
	}
	errno = EAFNOSUPPORT;
	return NULL;
}
int vp_inet_pton(int af, const char *s, void *dst)
{
	unsigned char *b = dst;
	unsigned int part, v, n, i = 0;

	if (af != AF_INET)
		return -1;
	for (part = 0; part < 4; part++) {
		v = 0;
		for (n = 0; n < 4 && s[i] >= '0' && s[i] <= '9'; n++, i++)
			v = v * 10 + (unsigned int)(s[i] - '0');
		if (n == 0 || n > 3 || v > 255)
			return 0;
		b[part] = (unsigned char)v;
		if (part < 3) {
			if (s[i] != '.')
				return 0;
			i++;
		}
	}
	return s[i] == '\0';
}

in_addr_t vp_inet_addr(const char *s)
{
	in_addr_t a;

	return vp_inet_pton(AF_INET, s, &a) == 1 ? a : (in_addr_t)-1;
}
int vp_inet_aton(const char *s, struct in_addr *a) { return vp_inet_pton(AF_INET, s, a) == 1; }
size_t vp_strlcpy(char *d, const char *s, size_t n)
{
	size_t l = strlen(s), i;

	for (i = 0; i < l && i + 1 < n; i++)
		d[i] = s[i];
	if (n > 0)
		d[i] = '\0';
	return l;
}
size_t vp_strlcat(char *d, const char *s, size_t n)
{
	size_t k = 0;

	while (k < n && d[k] != '\0')
		k++;
	return k + vp_strlcpy(d + k, s, n - k);
}
void vp_bzero(void *p, size_t n) { memset(p, 0, n); }
void vp_explicit_bzero(void *p, size_t n) { memset(p, 0, n); }
void *vp_memmem(const void *a, size_t n, const void *b, size_t m)
{
	size_t i;

	for (i = 0; i + m <= n; i++)
		if (vp_memcmp((const char *)a + i, b, m) == 0)
			return (char *)a + i;
	return NULL;
}
void *vp_memccpy(void *d, const void *s, int c, size_t n)
{
	size_t i;

	for (i = 0; i < n; i++) {
		((unsigned char *)d)[i] = ((const unsigned char *)s)[i];
		if (((const unsigned char *)s)[i] == (unsigned char)c)
			return (char *)d + i + 1;
	}
	return NULL;
}

/* byte order */
unsigned short htons(unsigned short v) { return (unsigned short)((v << 8) | (v >> 8)); }
unsigned short ntohs(unsigned short v) { return (unsigned short)((v << 8) | (v >> 8)); }
unsigned int htonl(unsigned int v) { return __builtin_bswap32(v); }
unsigned int ntohl(unsigned int v) { return __builtin_bswap32(v); }
