/* LD_PRELOAD shim: perturbs the schedule of the parallel generator processes
 * by sleeping before writes to files opened for appending (the shared header)
 * and before every 3rd other write. Changes no data. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdlib.h>
#include <sys/uio.h>
#include <unistd.h>
#include <time.h>

static unsigned st;
static void pause_(int fd)
{
    if(!st)
    {
        struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
        st = (unsigned)t.tv_nsec ^ ((unsigned)getpid() << 12); st |= 1;
    }
    st = st * 1664525u + 1013904223u;
    int fl = fcntl(fd, F_GETFL);
    if(fl >= 0 && (fl & O_APPEND)) usleep((st >> 16) % 4000);
    else if((st >> 20) % 3 == 0) usleep((st >> 16) % 300);
}
ssize_t write(int fd, const void * p, size_t n)
{
    static ssize_t (*f)(int, const void *, size_t);
    if(!f) *(void **)&f = dlsym(RTLD_NEXT, "write");
    pause_(fd);
    return f(fd, p, n);
}
ssize_t writev(int fd, const struct iovec * v, int n)
{
    static ssize_t (*f)(int, const struct iovec *, int);
    if(!f) *(void **)&f = dlsym(RTLD_NEXT, "writev");
    pause_(fd);
    return f(fd, v, n);
}
