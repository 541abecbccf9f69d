# cc_demo OUT FILE... : compile with the repository's sources (all but the programs), from the current folder /repo
cc_demo() {
	out=$1; shift
	gcc -D_GNU_SOURCE -I"$PWD/include" -I"$here" -O1 -g -DNDEBUG -std=gnu99 -w -DOPENELP_MAJOR_VERSION=0 -DOPENELP_MINOR_VERSION=9 -DOPENELP_PATCH_VERSION=4 '-DOPENELP_VERSION="0.9.4-dev"' '-DOPENELP_EXTRA_VERSION="dev"' '-DOPENELP_CONFIG_HINT="../etc/ELProxy.conf"' -DPCRE2_CODE_UNIT_WIDTH=8 -DHAVE_SYSLOG=1 -DOPENELP_API= -o "$out" "$@" -lpcre2-8 -lpthread
}
LIBSRC="src/conf.c src/conn.c src/digest.c src/log.c src/md5.c src/mutex_posix.c src/pearson.c src/proxy.c src/proxy_client.c src/proxy_conn.c src/rand.c src/regex.c src/registration.c src/thread_posix.c src/worker.c"
