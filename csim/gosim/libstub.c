/* The seams under the library: randombytes() and the system's entropy. Linked into libfalcon.a. */
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/types.h>
#include <unistd.h>
#include <time.h>
#include <sys/time.h>

int real_randombytes(unsigned char *x, unsigned long long n);
int (*sim_random)(unsigned char *, unsigned long long);
int (*sim_entropy)(unsigned char *, unsigned long long);

int randombytes(unsigned char *x, unsigned long long n)
{
	return sim_random ? sim_random(x, n) : real_randombytes(x, n);
}
int sim_getentropy(void *p, size_t n)
{
	if (!sim_entropy) { return getentropy(p, n); }
	if (n > 256) { errno = EIO; return -1; }
	if (sim_entropy(p, n)) { errno = EIO; return -1; }
	return 0;
}
ssize_t sim_getrandom(void *p, size_t n, unsigned f)
{
	(void)f;
	return sim_getentropy(p, n > 256 ? 256 : n) ? -1 : (ssize_t)(n > 256 ? 256 : n);
}
/* a device of random bytes */
static int dev(const char *p) { return sim_entropy && (!strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random")); }
#define DEVFD 1000001
int sim_open(const char *p, int fl, ...)
{
	va_list a;
	va_start(a, fl);
	int m = va_arg(a, int);
	va_end(a);
	return dev(p) ? DEVFD : open(p, fl, m);
}
ssize_t sim_read(int fd, void *p, size_t n) { return fd == DEVFD ? sim_getrandom(p, n, 0) : read(fd, p, n); }
int sim_close(int fd) { return fd == DEVFD ? 0 : close(fd); }
static FILE *devfile;
FILE *sim_fopen(const char *p, const char *m)
{
	if (!dev(p)) { return fopen(p, m); }
	return devfile = fopen("/dev/null", "r");
}
size_t sim_fread(void *p, size_t s, size_t n, FILE *f)
{
	if (f != devfile || !f) { return fread(p, s, n, f); }
	size_t done = 0;
	while (done < s * n) {
		size_t k = s * n - done < 256 ? s * n - done : 256;
		if (sim_getentropy((char *)p + done, k)) { break; }
		done += k;
	}
	return done / s;
}
int sim_fclose(FILE *f) { if (f == devfile) { devfile = NULL; } return fclose(f); }
/* a machine that is started again has no other clock, process number or addresses */
time_t sim_time(time_t *t) { time_t v = sim_entropy ? 1700000000 : time(NULL); if (t) { *t = v; } return v; }
int sim_clock_gettime(clockid_t c, struct timespec *t)
{
	if (!sim_entropy) { return clock_gettime(c, t); }
	t->tv_sec = 1700000000; t->tv_nsec = 0;
	return 0;
}
int sim_gettimeofday(struct timeval *t, void *z)
{
	if (!sim_entropy) { return gettimeofday(t, z); }
	t->tv_sec = 1700000000; t->tv_usec = 0;
	return 0;
}
clock_t sim_clock(void) { return sim_entropy ? 0 : clock(); }
pid_t sim_getpid(void) { return sim_entropy ? 4242 : getpid(); }
int sim_open64(const char *p, int fl, ...) __attribute__((alias("sim_open")));
FILE *sim_fopen64(const char *p, const char *m) __attribute__((alias("sim_fopen")));
