/* Force-included in front of every translation unit of the code under test: pulls in the system headers
 * unrenamed and then redirects the operating system boundary to the models. The sources of the
 * code under test are otherwise compiled exactly as they are. */
#ifndef VP_RENAME_H_
#define VP_RENAME_H_
#ifndef PCRE2_CODE_UNIT_WIDTH
#define PCRE2_CODE_UNIT_WIDTH 8
#endif
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <ctype.h>
#include <limits.h>
#include <inttypes.h>
#include <stdint.h>
#include <stdarg.h>
#include <unistd.h>
#include <poll.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <sys/select.h>
#include <sys/uio.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <pthread.h>
#include <sched.h>
#include <syslog.h>
#include <assert.h>
#include <pcre2.h>

#ifdef VP_MODEL_HEADER
#include VP_MODEL_HEADER
#endif

/* memory */
extern void *vp_malloc(size_t);
extern void *vp_calloc(size_t, size_t);
extern void *vp_realloc(void *, size_t);
extern void vp_free(void *);
extern char *vp_strdup(const char *);
extern char *vp_strndup(const char *, size_t);
/* sockets */
extern int vp_socket(int, int, int);
extern int vp_bind(int, const struct sockaddr *, socklen_t);
extern int vp_listen(int, int);
extern int vp_accept(int, struct sockaddr *, socklen_t *);
extern int vp_connect(int, const struct sockaddr *, socklen_t);
extern ssize_t vp_send(int, const void *, size_t, int);
extern ssize_t vp_sendto(int, const void *, size_t, int, const struct sockaddr *, socklen_t);
extern ssize_t vp_sendmsg(int, const struct msghdr *, int);
extern ssize_t vp_recv(int, void *, size_t, int);
extern ssize_t vp_recvfrom(int, void *, size_t, int, struct sockaddr *, socklen_t *);
extern ssize_t vp_recvmsg(int, struct msghdr *, int);
extern ssize_t vp_read(int, void *, size_t);
extern ssize_t vp_write(int, const void *, size_t);
extern int vp_shutdown(int, int);
extern int vp_close(int);
extern int vp_getaddrinfo(const char *, const char *, const struct addrinfo *, struct addrinfo **);
extern void vp_freeaddrinfo(struct addrinfo *);
extern int vp_setsockopt(int, int, int, const void *, socklen_t);
extern int vp_getsockopt(int, int, int, void *, socklen_t *);
extern int vp_getsockname(int, struct sockaddr *, socklen_t *);
extern int vp_getpeername(int, struct sockaddr *, socklen_t *);
/* threads */
extern int vp_pthread_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *);
extern int vp_pthread_mutex_destroy(pthread_mutex_t *);
extern int vp_pthread_mutex_lock(pthread_mutex_t *);
extern int vp_pthread_mutex_trylock(pthread_mutex_t *);
extern int vp_pthread_mutex_unlock(pthread_mutex_t *);
extern int vp_pthread_cond_init(pthread_cond_t *, const pthread_condattr_t *);
extern int vp_pthread_cond_destroy(pthread_cond_t *);
extern int vp_pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *);
extern int vp_pthread_cond_timedwait(pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
extern int vp_pthread_cond_signal(pthread_cond_t *);
extern int vp_pthread_cond_broadcast(pthread_cond_t *);
extern int vp_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
extern int vp_pthread_join(pthread_t, void **);
extern int vp_pthread_detach(pthread_t);
extern pthread_t vp_pthread_self(void);
extern int vp_pthread_attr_init(pthread_attr_t *);
extern int vp_pthread_attr_destroy(pthread_attr_t *);
extern int vp_pthread_attr_setstacksize(pthread_attr_t *, size_t);
/* time, randomness */
extern time_t vp_time(time_t *);
extern int vp_clock_gettime(clockid_t, struct timespec *);
extern int vp_gettimeofday(struct timeval *, void *);
extern struct tm *vp_localtime_r(const time_t *, struct tm *);
extern size_t vp_strftime(char *, size_t, const char *, const struct tm *);
extern int vp_rand(void);
extern void vp_srand(unsigned int);
extern long vp_random(void);
extern void vp_srandom(unsigned int);
extern int vp_usleep(useconds_t);
extern unsigned int vp_sleep(unsigned int);
extern int vp_nanosleep(const struct timespec *, struct timespec *);
extern int vp_sched_yield(void);
/* files and output */
extern FILE *vp_stdin, *vp_stdout, *vp_stderr;
extern FILE *vp_fopen(const char *, const char *);
extern int vp_fclose(FILE *);
extern int vp_fgetc(FILE *);
extern char *vp_fgets(char *, int, FILE *);
extern size_t vp_fread(void *, size_t, size_t, FILE *);
extern ssize_t vp_getline(char **, size_t *, FILE *);
extern int vp_feof(FILE *);
extern int vp_ferror(FILE *);
extern int vp_fflush(FILE *);
extern int vp_printf(const char *, ...);
extern int vp_fprintf(FILE *, const char *, ...);
extern int vp_vprintf(const char *, va_list);
extern int vp_vfprintf(FILE *, const char *, va_list);
extern int vp_puts(const char *);
extern int vp_fputs(const char *, FILE *);
extern int vp_putchar(int);
extern int vp_fputc(int, FILE *);
extern size_t vp_fwrite(const void *, size_t, size_t, FILE *);
extern void vp_perror(const char *);
extern int vp_setvbuf(FILE *, char *, int, size_t);
extern void vp_setlinebuf(FILE *);
extern int vp_asprintf(char **, const char *, ...);
extern int vp_vasprintf(char **, const char *, va_list);
extern int vp_pthread_condattr_init(pthread_condattr_t *);
extern int vp_pthread_condattr_destroy(pthread_condattr_t *);
extern int vp_pthread_mutexattr_init(pthread_mutexattr_t *);
extern int vp_pthread_mutexattr_destroy(pthread_mutexattr_t *);
extern void vp_openlog(const char *, int, int);
extern void vp_closelog(void);
extern void vp_syslog(int, const char *, ...);
extern void vp_vsyslog(int, const char *, va_list);
/* process */
extern pid_t vp_fork(void);
extern pid_t vp_setsid(void);
extern int vp_chdir(const char *);
extern mode_t vp_umask(mode_t);
extern int vp_access(const char *, int);
extern void vp_exit(int) __attribute__((noreturn));
extern int vp_sigemptyset(sigset_t *);
extern int vp_sigfillset(sigset_t *);
extern int vp_sigaddset(sigset_t *, int);
extern int vp_sigaction(int, const struct sigaction *, struct sigaction *);
/* pure library functions which the models replace only in symbolic execution */
#ifdef VP_SX
extern int vp_sprintf(char *, const char *, ...);
extern int vp_snprintf(char *, size_t, const char *, ...);
extern int vp_vsnprintf(char *, size_t, const char *, va_list);
extern int vp_vsprintf(char *, const char *, va_list);
extern int vp_sscanf(const char *, const char *, ...);
extern long vp_strtol(const char *, char **, int);
extern unsigned long vp_strtoul(const char *, char **, int);
extern int vp_atoi(const char *);
extern char *vp_strerror(int);
extern const char *vp_inet_ntop(int, const void *, char *, socklen_t);
extern int vp_inet_pton(int, const char *, void *);
extern char *vp_strncpy(char *, const char *, size_t);
extern size_t vp_strnlen(const char *, size_t);
extern char *vp_strchr(const char *, int);
extern char *vp_strrchr(const char *, int);
extern char *vp_strstr(const char *, const char *);
extern void *vp_memchr(const void *, int, size_t);
extern int vp_memcmp(const void *, const void *, size_t);
extern int vp_strcmp(const char *, const char *);
extern int vp_strncmp(const char *, const char *, size_t);
extern int vp_strcasecmp(const char *, const char *);
extern int vp_strncasecmp(const char *, const char *, size_t);
extern int vp_toupper(int);
extern int vp_tolower(int);
extern int vp_isspace(int);
extern int vp_isdigit(int);
extern int vp_isalpha(int);
extern int vp_islower(int);
extern int vp_isupper(int);
extern int vp_isxdigit(int);
extern char *vp_stpcpy(char *, const char *);
extern size_t vp_strspn(const char *, const char *);
extern size_t vp_strcspn(const char *, const char *);
extern int vp_isalnum(int);
extern int vp_isprint(int);
extern int vp_isgraph(int);
extern int vp_ispunct(int);
extern int vp_iscntrl(int);
extern int vp_isblank(int);
extern char *vp_strncat(char *, const char *, size_t);
extern char *vp_strpbrk(const char *, const char *);
extern char *vp_strtok_r(char *, const char *, char **);
extern char *vp_strsep(char **, const char *);
extern char *vp_strchrnul(const char *, int);
extern void *vp_mempcpy(void *, const void *, size_t);
extern void *vp_memrchr(const void *, int, size_t);
extern long long vp_strtoll(const char *, char **, int);
extern unsigned long long vp_strtoull(const char *, char **, int);
extern intmax_t vp_strtoimax(const char *, char **, int);
extern uintmax_t vp_strtoumax(const char *, char **, int);
extern long vp_atol(const char *);
extern long long vp_atoll(const char *);
extern size_t vp_strlcpy(char *, const char *, size_t);
extern size_t vp_strlcat(char *, const char *, size_t);
extern void vp_bzero(void *, size_t);
extern void vp_explicit_bzero(void *, size_t);
extern void *vp_memmem(const void *, size_t, const void *, size_t);
extern void *vp_memccpy(void *, const void *, int, size_t);
extern in_addr_t vp_inet_addr(const char *);
extern int vp_inet_aton(const char *, struct in_addr *);
#undef strlcpy
#define strlcpy vp_strlcpy
#undef strlcat
#define strlcat vp_strlcat
#undef bzero
#define bzero vp_bzero
#undef explicit_bzero
#define explicit_bzero vp_explicit_bzero
#undef memmem
#define memmem vp_memmem
#undef memccpy
#define memccpy vp_memccpy
#undef inet_addr
#define inet_addr vp_inet_addr
#undef inet_aton
#define inet_aton vp_inet_aton
#undef isalnum
#define isalnum vp_isalnum
#undef isprint
#define isprint vp_isprint
#undef isgraph
#define isgraph vp_isgraph
#undef ispunct
#define ispunct vp_ispunct
#undef iscntrl
#define iscntrl vp_iscntrl
#undef isblank
#define isblank vp_isblank
#undef strncat
#define strncat vp_strncat
#undef strpbrk
#define strpbrk vp_strpbrk
#undef strtok_r
#define strtok_r vp_strtok_r
#undef strsep
#define strsep vp_strsep
#undef strchrnul
#define strchrnul vp_strchrnul
#undef mempcpy
#define mempcpy vp_mempcpy
#undef memrchr
#define memrchr vp_memrchr
#undef strtoll
#define strtoll vp_strtoll
#undef strtoull
#define strtoull vp_strtoull
#undef strtoimax
#define strtoimax vp_strtoimax
#undef strtoumax
#define strtoumax vp_strtoumax
#undef atol
#define atol vp_atol
#undef atoll
#define atoll vp_atoll
#undef bzero
#define bzero(p, n) memset(p, 0, n)
#undef explicit_bzero
#define explicit_bzero(p, n) memset(p, 0, n)
#undef bcopy
#define bcopy(s, d, n) memmove(d, s, n)
#define sprintf vp_sprintf
#define snprintf vp_snprintf
#define vsnprintf vp_vsnprintf
#define vsprintf vp_vsprintf
#define sscanf vp_sscanf
#define strtol vp_strtol
#define strtoul vp_strtoul
#define atoi vp_atoi
#define strerror vp_strerror
#define inet_ntop vp_inet_ntop
#define inet_pton vp_inet_pton
#undef strncpy
#define strncpy vp_strncpy
#define strnlen vp_strnlen
#define strchr vp_strchr
#define strrchr vp_strrchr
#define strstr vp_strstr
#define memchr vp_memchr
#define memcmp vp_memcmp
#undef strcmp
#define strcmp vp_strcmp
#undef strncmp
#define strncmp vp_strncmp
#define strcasecmp vp_strcasecmp
#define strncasecmp vp_strncasecmp
#undef toupper
#define toupper vp_toupper
#undef tolower
#define tolower vp_tolower
#undef isspace
#define isspace vp_isspace
#undef isdigit
#define isdigit vp_isdigit
#undef isalpha
#define isalpha vp_isalpha
#undef islower
#define islower vp_islower
#undef isupper
#define isupper vp_isupper
#undef isxdigit
#define isxdigit vp_isxdigit
#define stpcpy vp_stpcpy
#define strspn vp_strspn
#define strcspn vp_strcspn
#endif

#define malloc vp_malloc
#define calloc vp_calloc
#define realloc vp_realloc
#define free vp_free
#undef strdup
#define strdup vp_strdup
#undef strndup
#define strndup vp_strndup
#define socket vp_socket
#define bind vp_bind
#define listen vp_listen
#define accept vp_accept
#define connect vp_connect
#define send vp_send
#define sendto vp_sendto
#define sendmsg vp_sendmsg
#define recv vp_recv
#define recvfrom vp_recvfrom
#define recvmsg vp_recvmsg
#define read vp_read
#define write vp_write
#define shutdown vp_shutdown
#define close vp_close
#define getaddrinfo vp_getaddrinfo
#define freeaddrinfo vp_freeaddrinfo
#define setsockopt vp_setsockopt
#define getsockopt vp_getsockopt
#define getsockname vp_getsockname
#define getpeername vp_getpeername
#define pthread_mutex_init vp_pthread_mutex_init
#define pthread_mutex_destroy vp_pthread_mutex_destroy
#define pthread_mutex_lock vp_pthread_mutex_lock
#define pthread_mutex_trylock vp_pthread_mutex_trylock
#define pthread_mutex_unlock vp_pthread_mutex_unlock
#define pthread_cond_init vp_pthread_cond_init
#define pthread_cond_destroy vp_pthread_cond_destroy
#define pthread_cond_wait vp_pthread_cond_wait
#define pthread_cond_timedwait vp_pthread_cond_timedwait
#define pthread_cond_signal vp_pthread_cond_signal
#define pthread_cond_broadcast vp_pthread_cond_broadcast
#define pthread_create vp_pthread_create
#define pthread_join vp_pthread_join
#define pthread_detach vp_pthread_detach
#define pthread_self vp_pthread_self
#define pthread_attr_init vp_pthread_attr_init
#define pthread_attr_destroy vp_pthread_attr_destroy
#define pthread_attr_setstacksize vp_pthread_attr_setstacksize
#define time vp_time
#define clock_gettime vp_clock_gettime
#define gettimeofday vp_gettimeofday
#define localtime_r vp_localtime_r
#define strftime vp_strftime
#define rand vp_rand
#define srand vp_srand
#define random vp_random
#define srandom vp_srandom
#define usleep vp_usleep
#define sleep vp_sleep
#define nanosleep vp_nanosleep
#define sched_yield vp_sched_yield
#undef stdin
#undef stdout
#undef stderr
#define stdin vp_stdin
#define stdout vp_stdout
#define stderr vp_stderr
#define fopen vp_fopen
#define fclose vp_fclose
#define fgetc vp_fgetc
#undef getc
#define getc vp_fgetc
#define fgets vp_fgets
#define fread vp_fread
#define getline vp_getline
#define feof vp_feof
#define ferror vp_ferror
#define fflush vp_fflush
#define printf vp_printf
#define fprintf vp_fprintf
#define vprintf vp_vprintf
#define vfprintf vp_vfprintf
#undef sigemptyset
#undef sigfillset
#undef sigaddset
#define sigemptyset vp_sigemptyset
#define sigfillset vp_sigfillset
#define sigaddset vp_sigaddset
#define puts vp_puts
#define fputs vp_fputs
#undef putchar
#define putchar vp_putchar
#define fputc vp_fputc
#undef putc
#define putc vp_fputc
#undef fwrite
#define fwrite vp_fwrite
#undef perror
#define perror vp_perror
#define setvbuf vp_setvbuf
#define setlinebuf vp_setlinebuf
#define asprintf vp_asprintf
#define vasprintf vp_vasprintf
#define pthread_condattr_init vp_pthread_condattr_init
#define pthread_condattr_destroy vp_pthread_condattr_destroy
#define pthread_mutexattr_init vp_pthread_mutexattr_init
#define pthread_mutexattr_destroy vp_pthread_mutexattr_destroy
#define openlog vp_openlog
#define closelog vp_closelog
#define syslog vp_syslog
#define vsyslog vp_vsyslog
#define fork vp_fork
#define setsid vp_setsid
#define chdir vp_chdir
#define umask vp_umask
#define access vp_access
#define exit vp_exit
/* struct sigaction shares its name with the function */
#define sigaction(...) vp_sigaction(__VA_ARGS__)
#endif
