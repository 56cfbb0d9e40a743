/* Preloaded library that counts the modifying system calls on files whose path contains a given text and can end the
 * process or report a full disk at the n-th of them. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <string.h>
#include <sys/types.h>
#include <unistd.h>

static char filter[256];
static int active, mode; /* mode 0: count, 1: end before, 2: end in the middle of a write, 3: disk full from then on */
static long limit, count;

void vp_arm(const char *text, int new_mode, long new_limit)
{
    strncpy(filter, text, sizeof(filter) - 1);
    mode = new_mode;
    limit = new_limit;
    count = 0;
    active = 1;
}

long vp_disarm(void)
{
    active = 0;
    return count;
}

static int affected(int fd)
{
    if (!active)
        return 0;
    char link[64], path[4096];
    snprintf(link, sizeof(link), "/proc/self/fd/%d", fd);
    ssize_t length = readlink(link, path, sizeof(path) - 1);
    if (length < 0)
        return 0;
    path[length] = 0;
    return strstr(path, filter) != NULL;
}

/* Returns 0: go on, 1: fail with ENOSPC, 2: write only a part and end */
static int step(void)
{
    ++count;
    if (mode == 0 || count < limit)
        return 0;
    if (mode == 1)
        _exit(77);
    return mode == 2 ? 2 : 1;
}

#define REAL(name, type) \
    typedef type; \
    static function *real; \
    if (!real) \
        real = (function *)dlsym(RTLD_NEXT, #name);

#define PWRITE(name, offset_type) \
    ssize_t name(int fd, const void *data, size_t size, offset_type offset) \
    { \
        REAL(name, ssize_t function(int, const void *, size_t, offset_type)) \
        if (affected(fd)) { \
            int what = step(); \
            if (what == 1) { \
                errno = ENOSPC; \
                return -1; \
            } \
            if (what == 2) { \
                real(fd, data, size / 2, offset); \
                _exit(77); \
            } \
        } \
        return real(fd, data, size, offset); \
    }

PWRITE(pwrite, off_t)
PWRITE(pwrite64, off64_t)

ssize_t write(int fd, const void *data, size_t size)
{
    REAL(write, ssize_t function(int, const void *, size_t))
    if (affected(fd)) {
        int what = step();
        if (what == 1) {
            errno = ENOSPC;
            return -1;
        }
        if (what == 2) {
            real(fd, data, size / 2);
            _exit(77);
        }
    }
    return real(fd, data, size);
}

#define TRUNCATE(name, offset_type) \
    int name(int fd, offset_type size) \
    { \
        REAL(name, int function(int, offset_type)) \
        if (affected(fd)) { \
            int what = step(); \
            if (what == 1) { \
                errno = ENOSPC; \
                return -1; \
            } \
            if (what == 2) \
                _exit(77); \
        } \
        return real(fd, size); \
    }

TRUNCATE(ftruncate, off_t)
TRUNCATE(ftruncate64, off64_t)
