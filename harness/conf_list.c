/* Long lists of additional external addresses, and long values */
#include <errno.h>
static int conf_open(const char *path);
#define H_FOPEN(p, m) conf_open(p)
#include "files.h"
#define PX_REAL_CONF
#include "px.h"
#ifndef FILECAP
#define FILECAP 140000
#endif
static struct proxy_handle ph;
static char file[FILECAP];
static size_t file_n;
static int conf_open(const char *path) { (void)path; return file_in(file, file_n); }
static void put(const char *s)
{
	while (*s != '\0')
		file[file_n++] = *s++;
}
static void put_byte(void)
{
	unsigned char c = nd_u8();

	assume((c > ' ') & (c < 127) & (c != '=') & (c != ',') & (c != '#'));
	file[file_n++] = (char)c;
}
static const char *const text_key[] = { "Password", "BindAddress", "PublicAddress", "CallsignsDenied", "CallsignsAllowed", "RegistrationName", "ExternalBindAddress", "RegistrationComment" };
static const char *setting(int k)
{
	switch (k) {
	case 0: return ph.conf.password;
	case 1: return ph.conf.bind_addr;
	case 2: return ph.conf.public_addr;
	case 3: return ph.conf.calls_denied;
	case 4: return ph.conf.calls_allowed;
	case 5: return ph.conf.reg_name;
	case 6: return ph.conf.bind_addr_ext;
	default: return ph.conf.reg_comment;
	}
}
void vp_main(void)
{
	static const int counts[] = { 2, 255, 256, 257, 300, 1000, 65535, 65536, 65537 }, lengths[] = { 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 9000 };
	int i, n, k, ret;
	size_t at;

	check(proxy_init(&ph) == 0, "initialised");
	if (nd_bool()) {
		n = counts[nd_pick(9)];
		put("Password=SECRET\nExternalBindAddress=1.2.3.4\nAdditionalExternalBindAddresses=");
		at = file_n;
		for (i = 0; i < n; i++) {
			if (i > 0)
				put(",");
			if (i == 0 || i == n - 1)
				put_byte();
			else
				file[file_n++] = (char)('a' + i % 26);
		}
		put("\nPort=81\n");
		ret = proxy_load_conf(&ph, "the.conf");
		check(n > 65535 || ret == 0, "a list of addresses is usable");
		if (ret == 0) {
			check(ph.conf.bind_addr_ext_add_len == n, "the list has as many addresses as are listed");
			for (i = 0; i < n; i++)
				check(ph.conf.bind_addr_ext_add[i][0] == file[at + 2 * (size_t)i] && ph.conf.bind_addr_ext_add[i][1] == '\0', "the list has the addresses listed, in order");
			check(ph.conf.port == 81, "what follows counts");
			if (n == 65535)
				witness("as many addresses as can be");
		} else {
			witness("more addresses than can be");
		}
	} else {
		k = nd_pick(8);
		n = lengths[nd_pick(11)];
		if (k != 0)
			put("Password=SECRET\n");
		put(text_key[k]);
		put("=");
		at = file_n;
		for (i = 0; i < n; i++) {
			if (i == 0 || i == n / 2 || i == n - 1)
				put_byte();
			else
				file[file_n++] = (char)('a' + i % 26);
		}
		put("\nPort=81\n");
		ret = proxy_load_conf(&ph, "the.conf");
		check(ret == 0, "a long value is usable");
		check(setting(k) != NULL && strlen(setting(k)) == (size_t)n && memcmp(setting(k), file + at, (size_t)n) == 0, "a setting is what the file says");
		check(ph.conf.port == 81, "what follows counts");
		if (n == 9000)
			witness("a long value");
	}
	proxy_free(&ph);
	check(vp_live == 0, "everything is released, once");
}
