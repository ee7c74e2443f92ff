/* Linked into the program under test for C24: lets a check set the clock and
   who and where it is, and see which variables it asks for. */
#define _GNU_SOURCE
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

extern char **environ;

static char *value_of(const char *name)
{
	size_t length = strlen(name);
	for (char **e = environ; e && *e; e++)
		if (!strncmp(*e, name, length) && (*e)[length] == '=')
			return *e + length + 1;
	return 0;
}
char *__wrap_getenv(const char *name)
{
	const char *asked = value_of("VERIF_ASKED");
	if (asked) {
		int file = syscall(SYS_open, asked, O_WRONLY | O_APPEND | O_CREAT, 0600);
		if (file >= 0) {
			char line[256];
			size_t length = strlen(name);
			if (length < sizeof line) {
				memcpy(line, name, length);
				line[length] = '\n';
				syscall(SYS_write, file, line, length + 1);
			}
			syscall(SYS_close, file);
		}
	}
	return value_of(name);
}
static long who(long number)
{
	const char *who = value_of("VERIF_WHO");
	return who ? atol(who) : syscall(number);
}
uid_t getuid(void) { return who(SYS_getuid); }
uid_t geteuid(void) { return who(SYS_geteuid); }
gid_t getgid(void) { return who(SYS_getgid); }
gid_t getegid(void) { return who(SYS_getegid); }
pid_t getpid(void) { return who(SYS_getpid); }
pid_t getppid(void) { return who(SYS_getppid); }

int clock_gettime(clockid_t id, struct timespec *ts)
{
	const char *now = value_of("VERIF_NOW");
	if (!now)
		return syscall(SYS_clock_gettime, id, ts);
	ts->tv_sec = (time_t)atoll(now);
	ts->tv_nsec = 123456789;
	return 0;
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz)
{
	struct timespec ts;
	(void)tz;
	if (clock_gettime(CLOCK_REALTIME, &ts))
		return -1;
	tv->tv_sec = ts.tv_sec;
	tv->tv_usec = ts.tv_nsec / 1000;
	return 0;
}
time_t time(time_t *t)
{
	struct timespec ts;
	if (clock_gettime(CLOCK_REALTIME, &ts))
		return -1;
	if (t)
		*t = ts.tv_sec;
	return ts.tv_sec;
}
