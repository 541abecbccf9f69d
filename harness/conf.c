/* The configuration file: what the settings are afterwards, and who owns them */
#include <errno.h>
static int conf_open(const char *path);
#define H_FOPEN(p, m) conf_open(p)
#include "files.h"
#define PX_REAL_CONF
#include "px.h"
static struct proxy_handle ph;
static char file[700];
static size_t file_n;
static int missing;	/* the file cannot be opened */
static int conf_open(const char *path)
{
	check(memcmp(path, "the.conf", 9) == 0, "the file named is the file read");
	if (missing) {
		errno = EACCES;
		return -1;
	}
	return file_in(file, file_n);
}
enum { K_PORT, K_PASS, K_TIMEOUT, K_BIND, K_PUBLIC, K_DENIED, K_ALLOWED, K_NAME, K_EXT, K_COMMENT, K_ADD, K_N };
static const char *const key[K_N] = { "Port", "Password", "ConnectionTimeout", "BindAddress", "PublicAddress", "CallsignsDenied", "CallsignsAllowed",
	"RegistrationName", "ExternalBindAddress", "RegistrationComment", "AdditionalExternalBindAddresses" };
/* what the settings should be; texts are stretches of the file */
static struct { const char *s; size_t n; } want[K_N];
static unsigned long want_port, want_timeout;
static int want_fail;		/* a value which is not usable */
static int want_unspec;		/* a value of which nothing is said */
static void put(const char *s)
{
	while (*s != '\0')
		file[file_n++] = *s++;
}
static void put_any(int n, int eq)	/* arbitrary bytes, but for the ends of lines */
{
	while (n-- > 0) {
		unsigned char c = nd_u8();

		assume((c != 0) & (c != '\n') & (c != '\r'));
		if (!eq)
			assume(c != '=');
		file[file_n++] = (char)c;
	}
}
static void put_end(void)
{
	switch (nd_pick(3)) {
	case 0: put("\n"); break;
	case 1: put("\r\n"); break;
	default: witness("no newline at the end"); break;
	}
}
static int is(size_t a, size_t n, const char *s)
{
	size_t i;
	unsigned long same = 1;

	if (strlen(s) != n)
		return 0;
	for (i = 0; i < n; i++)
		same &= file[a + i] == s[i];
	return sx_branch(same);
}
static int blank(char c) { return sx_branch((c == ' ') | (c == '\t')); }
/* a number in decimal and nothing else; what has a sign or odd white space is not looked at */
static int number(size_t a, size_t n, unsigned long *v)
{
	size_t i;
	int ok = n > 0;

	*v = 0;
	for (i = 0; i < n; i++) {
		unsigned char c = (unsigned char)file[a + i];

		if (sx_branch((c == '+') | (c == '-') | ((c >= 9) & (c <= 13))))
			want_unspec = 1;
		if (!sx_branch((c >= '0') & (c <= '9')))
			ok = 0;
		*v = *v * 10 + (unsigned int)(c - '0');
	}
	return ok;
}
static void meant_line(size_t a, size_t e)
{
	size_t k, kn, v;
	int i;

	while (a < e && blank(file[a]))
		a++;
	if (a == e || sx_branch((file[a] == '#') | (file[a] == '=')))
		return;
	for (v = a; v < e && !sx_branch(file[v] == '='); v++)
		;
	if (v == e)
		return;
	k = a;
	kn = v - a;
	while (kn > 0 && blank(file[k + kn - 1]))
		kn--;
	v++;
	while (v < e && blank(file[v]))
		v++;
	while (e > v && (blank(file[e - 1]) || sx_branch(file[e - 1] == '\r')))
		e--;
	for (i = 0; i < K_N && !is(k, kn, key[i]); i++)
		;
	switch (i) {
	case K_N:
#ifndef OWN
		witness("an unknown key");
#endif
		return;
	case K_PORT:
		if (!number(v, e - v, &want_port) || sx_branch(want_port > 65535))
			want_fail = 1;
		else if (sx_branch(want_port == 0))
			want_unspec = 1;
		return;
	case K_TIMEOUT:
		if (!number(v, e - v, &want_timeout))
			want_fail = 1;
		return;
	case K_PASS:
		if (is(v, e - v, "notset"))
			want_fail = 1;
		break;
	default:
		break;
	}
	want[i].s = e == v && i != K_PASS ? NULL : file + v;
	want[i].n = e - v;
}
/* what the file says, line by line until one is refused */
static void meant(void)
{
	size_t a = 0, e;

	while (a < file_n && !want_fail) {
		for (e = a; e < file_n && !sx_branch(file[e] == '\n'); e++)
			;
		meant_line(a, e);
		a = e + 1;
	}
	if (want[K_PASS].s == NULL)
		want_fail = 1;
	if (want[K_ADD].s != NULL && (want[K_EXT].s == NULL || is((size_t)(want[K_EXT].s - file), want[K_EXT].n, "0.0.0.0"))) {
		if (!want_fail)
			witness("additional addresses without an external address");
		want_fail = 1;
	}
}
static void same_text(const char *got, const char *s, size_t n)
{
	if (s == NULL) {
		check(got == NULL, "a setting which is not given or empty is not set");
		return;
	}
	check(got != NULL, "a setting which is given is set");
	check(sx_same(got, s, n), "the setting is the value in the file without the blanks around it");
	check(got[n] == '\0', "the setting ends where the value ends");
}
static void same_settings(void)
{
	const struct proxy_conf *c = &ph.conf;
	size_t i, j, k = 0;

	check(c->port == (uint16_t)want_port, "the port is the one configured, or the default");
	check(c->connection_timeout == (unsigned int)want_timeout, "the time limit is the one configured, or none");
	same_text(c->password, want[K_PASS].s, want[K_PASS].n);
	same_text(c->bind_addr, want[K_BIND].s, want[K_BIND].n);
	same_text(c->public_addr, want[K_PUBLIC].s, want[K_PUBLIC].n);
	same_text(c->calls_denied, want[K_DENIED].s, want[K_DENIED].n);
	same_text(c->calls_allowed, want[K_ALLOWED].s, want[K_ALLOWED].n);
	same_text(c->reg_name, want[K_NAME].s, want[K_NAME].n);
	same_text(c->bind_addr_ext, want[K_EXT].s, want[K_EXT].n);
	same_text(c->reg_comment, want[K_COMMENT].s, want[K_COMMENT].n);
	if (want[K_ADD].s == NULL) {
		check(c->bind_addr_ext_add == NULL && c->bind_addr_ext_add_len == 0, "there are no additional addresses");
		return;
	}
	check(c->bind_addr_ext_add != NULL, "there are additional addresses");
	for (i = 0, j = 0; i <= want[K_ADD].n; i++) {
		if (i < want[K_ADD].n && !sx_branch(want[K_ADD].s[i] == ','))
			continue;
		check(k < c->bind_addr_ext_add_len, "every additional address is there");
		same_text(c->bind_addr_ext_add[k], want[K_ADD].s + j, i - j);
		j = i + 1;
		k++;
	}
	check(k == c->bind_addr_ext_add_len, "there is no other additional address");
	if (k > 1)
		witness("several additional addresses");
}
static void reset(void)
{
	int i;

	file_n = 0;
	want_fail = 0;
	for (i = 0; i < K_N; i++)
		want[i].s = NULL;
	want_port = 8100;
	want_timeout = 0;
}
static int load(void)
{
	int before = vp_faults_left, streams = vp_files_live, ret;

	meant();
	if (want_unspec)
		sx_stop();
	ret = proxy_load_conf(&ph, "the.conf");
	vp_fault_malloc = 0;
	check(vp_files_live == streams, "the file is closed");
	if (vp_faults_left != before) {
		check(ret < 0, "running out of memory is reported");
#ifdef OWN
		witness("out of memory");
#endif
		return ret;
	}
	if (missing) {
		check(ret < 0, "a file which cannot be opened is reported");
		return ret;
	}
	check((ret < 0) == want_fail, "loading fails when a value is not usable or a required one is missing, and only then");
	if (ret >= 0) {
		witness("loaded");
		same_settings();
	} else {
		witness("refused");
	}
	return ret;
}
static const char *value(int k)	/* a usable one */
{
	return k == K_PORT || k == K_TIMEOUT ? "17" : k == K_EXT ? "1.2.3.4" : "ab";
}
static void password(void)
{
	put("Password=pw\n");
}
#ifndef OWN
static void blanks(void)
{
	int k = nd_pick(K_N), spot = nd_pick(4);

	password();
	if (k == K_ADD)
		put("ExternalBindAddress=1.2.3.4\n");
	put_any(spot == 0 ? 2 : 0, 1);
	put(key[k]);
	put_any(spot == 1 ? 2 : 0, 1);
	put("=");
	put_any(spot == 2 ? 2 : 0, 1);
	put(value(k));
	put_any(spot == 3 ? 2 : 0, 1);
	put_end();
}
#ifndef VALUE
#define VALUE 4
#endif
static void values(void)
{
	int k = nd_pick(K_N);

	if (k != K_PASS)
		password();
	if (k == K_ADD)
		put("ExternalBindAddress=1.2.3.4\n");
	put(key[k]);
	put("=");
	if (k == K_PORT && nd_bool()) {
		put_any(nd_pick(8), 1);
	} else if (k == K_PASS && nd_bool()) {
		put("notset");
		put_any(nd_pick(2), 1);
	} else {
		put_any(nd_pick(VALUE + 1), 1);
	}
	put_end();
}
static void keys(void)
{
	int k = nd_pick(K_N), how = nd_pick(4);
	size_t at, n = strlen(key[k]), i;

	if (nd_bool())
		password();
	at = how == 3 ? 0 : (size_t)nd_pick((int)n + (how == 1));
	for (i = 0; i < n; i++) {
		if (i == at && how < 2)
			put_any(1, 1);
		if (how == 3)		/* another case */
			file[file_n++] = (char)(key[k][i] ^ 0x20);
		else if (!(i == at && (how == 0 || how == 2)))
			file[file_n++] = key[k][i];
	}
	if (at == n && how == 1)
		put_any(1, 1);
	put("=");
	put(value(k));
	put("\n");
	password();
}
static void lines(void)
{
	int k = 2 + nd_pick(K_N - 2), i;
	size_t n = 120 + (size_t)nd_pick(12) + (nd_bool() ? 128 : 0);

	password();
	put(key[k]);
	put("=");
	if (k == K_TIMEOUT)
		put("17");
	else
		for (i = 0; file_n < n + 12; i++)
			file[file_n++] = (char)('a' + i % 23);
	put_end();
	if (file[file_n - 1] == '\n') {
		put("BindAddress=after\n");
	}
	if (k == K_ADD)
		put("ExternalBindAddress=1.2.3.4\n");
}
static void odd(void)	/* anything, looked at for its effect on nothing else */
{
	int n = 1 + nd_pick(VALUE);

	password();
	put_any(n, 1);
	put_end();
	password();
}
void vp_main(void)
{
	reset();
	check(proxy_init(&ph) == 0, "initialised");
	switch (nd_pick(5)) {
	case 0: blanks(); break;
	case 1: values(); break;
	case 2: keys(); break;
	case 3: lines(); break;
	default: odd(); break;
	}
	load();
	proxy_free(&ph);
	check(vp_live == 0, "everything is released");
}
#else
static void some(int k)
{
	put(key[k]);
	put("=");
	if (k == K_PORT || k == K_TIMEOUT) {
		put(nd_bool() ? "17" : "9");
		return;
	}
	switch (nd_pick(k == K_EXT ? 4 : 3)) {
	case 0: break;
	case 1: put("a"); break;
	case 2: put("b,cd,e"); break;
	default: put("0.0.0.0"); break;
	}
}
/* two settings, perhaps the same one, after a password and an address */
static void repeated(void)
{
	int k = nd_pick(K_N), l;

	password();
	some(k);
	put("\n");
#ifdef PAIRS
	l = nd_pick(K_N);
#else
	l = nd_bool() ? k : (k + 1) % K_N;
#endif
	if (l != k)
		witness("two settings");
	some(l);
	put("\n");
	if (nd_bool())
		put("ExternalBindAddress=1.2.3.4\n");
}
#ifndef LIST
#define LIST 5
#endif
static void list(void)
{
	int i, n = nd_pick(LIST + 1);

	password();
	put("AdditionalExternalBindAddresses=");
	for (i = 0; i < n; i++) {
		unsigned char c = nd_u8();

		assume((c > ' ') & (c != '='));
		file[file_n++] = (char)c;
	}
	put("\n");
	switch (nd_pick(4)) {
	case 0: put("ExternalBindAddress=1.2.3.4\n"); break;
	case 1: put("ExternalBindAddress=0.0.0.0\n"); break;
	case 2: put("ExternalBindAddress=\n"); break;
	default: break;
	}
}
/* any bytes at all: nothing is said but that memory is used properly */
static void garbage(void)
{
	int i, n = 1 + nd_pick(4);

	password();
	if (nd_bool())
		put(nd_bool() ? "Port" : "BindAddress");
	for (i = 0; i < n; i++)
		file[file_n++] = (char)nd_u8();
	proxy_load_conf(&ph, "the.conf");
}
void vp_main(void)
{
	int what = nd_pick(4), again, i;

	check(proxy_init(&ph) == 0, "initialised");
	reset();
	if (what == 2) {
		garbage();
	} else {
		missing = what == 3;
		vp_faults_left = 1;
		vp_fault_malloc = nd_bool();
		if (what == 0)
			repeated();
		else if (what == 1)
			list();
		else
			password();
		load();
	}
	again = nd_pick(3);
	if (again == 1) {
		conf_free(&ph.conf);
		witness("freed twice");
	} else if (again == 2) {
		/* a complete configuration replaces all of it */
		missing = 0;
		reset();
		for (i = 0; i < K_N; i++) {
			put(key[i]);
			put("=");
			put(i == K_ADD ? "x,yz" : i == K_TIMEOUT ? "0" : value(i));
			put("\n");
		}
		check(load() == 0, "a configuration can be loaded again");
		witness("loaded again");
	}
	proxy_free(&ph);
	check(vp_live == 0, "everything is released, once");
	check(ph.conf.password == NULL && ph.conf.bind_addr == NULL && ph.conf.bind_addr_ext_add == NULL, "nothing released is left to be used");
}
#endif
