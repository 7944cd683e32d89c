/* stdout/stderr of one simulated process: variables of its library copy */
#include <stdio.h>
FILE *simnode_stdout, *simnode_stderr;
void simnode_io(FILE*** o, FILE*** e)
{
    simnode_stdout = stdout;
    simnode_stderr = stderr;
    *o = &simnode_stdout;
    *e = &simnode_stderr;
}

/* the library is compiled with _FORTIFY_SOURCE; checked variants of calls the
   simulator intercepts are renamed to these */
#undef _FORTIFY_SOURCE
#include <stdarg.h>
#include <stdlib.h>
#include <sys/types.h>
#include <sys/socket.h>
#include <poll.h>
#include <unistd.h>
int simnode_vfprintf_chk(FILE* f, int flag, const char* fmt, va_list ap) { (void) flag; return vfprintf(f, fmt, ap); }
int simnode_fprintf_chk(FILE* f, int flag, const char* fmt, ...)
{
    va_list ap;
    (void) flag;
    va_start(ap, fmt);
    int r = vfprintf(f, fmt, ap);
    va_end(ap);
    return r;
}
int simnode_vprintf_chk(int flag, const char* fmt, va_list ap) { (void) flag; return vfprintf(stdout, fmt, ap); }
int simnode_printf_chk(int flag, const char* fmt, ...)
{
    va_list ap;
    (void) flag;
    va_start(ap, fmt);
    int r = vfprintf(stdout, fmt, ap);
    va_end(ap);
    return r;
}
static void fits(size_t n, size_t have) { if (n > have) abort(); }
ssize_t simnode_read_chk(int fd, void* b, size_t n, size_t have) { fits(n, have); return read(fd, b, n); }
ssize_t simnode_recv_chk(int fd, void* b, size_t n, size_t have, int fl) { fits(n, have); return recv(fd, b, n, fl); }
int simnode_poll_chk(struct pollfd* p, nfds_t n, int t, size_t have) { fits(n * sizeof(*p), have); return poll(p, n, t); }
int simnode_gethostname_chk(char* b, size_t n, size_t have) { fits(n, have); return gethostname(b, n); }
