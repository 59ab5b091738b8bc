#include "stream.h"
#include <algorithm>

namespace sim {

static ssize_t in_read(void* c, char* buf, size_t size)
{
    Host h;
    InStream& s = *(InStream*)c;
    if (s.yields) yield_point("stream-read");
    if (s.lead) { size_t n = std::min<off_t>(size, s.lead); memset(buf, 'x', n); s.lead -= n; return n; }
    if (s.err_at >= 0 && (ssize_t)s.pos >= s.err_at && (s.err_sticky || !s.err_fired))
    {
        if (!s.err_fired) fault(s.err_no == EINTR ? "fault.read_eintr" : "fault.read_eio");
        s.err_fired = true;
        errno = s.err_no;
        return -1;
    }
    size_t avail = s.eof_at > s.pos ? s.eof_at - s.pos : 0;
    if (s.err_at >= 0 && !(s.err_fired && !s.err_sticky) && (size_t)s.err_at > s.pos)
        avail = std::min(avail, (size_t)s.err_at - s.pos);
    size_t n = std::min(size, avail);
    if (s.max_chunk && n > 1)
    {
        size_t c = 1 + draw(std::min<size_t>(n, s.max_chunk), "chunk");
        if (c > n) c = n;
        if (c < n) count("fault.short_read");
        n = c;
    }
    if (n) memcpy(buf, s.data.data() + s.pos, n);
    s.pos += n;
    if (n && s.clobber_errno) { errno = ENOTTY; count("fault.errno_clobbered"); }
    return n;
}

static int in_seek(void* c, off64_t* off, int whence)
{
    Host h;
    InStream& s = *(InStream*)c;
    off64_t base = whence == SEEK_SET ? -s.base : whence == SEEK_CUR ? (off64_t)s.pos - s.lead : (off64_t)s.eof_at;
    off64_t to = base + *off;
    if (to < -s.base) { errno = EINVAL; return -1; }
    // stdio likes to seek to where a block begins
    s.pos = to < 0 ? 0 : to;
    s.lead = to < 0 ? -to : 0;
    *off = to + s.base;
    return 0;
}

FILE* InStream::open(int bufmode, size_t bufsize)
{
    Host h;
    cookie_io_functions_t io{in_read, nullptr, seekable ? in_seek : nullptr, nullptr};
    fp = fopencookie(this, "r", io);
    if (!fp) harness_error("fopencookie failed");
    if (bufmode != _IOFBF || bufsize)
    {
        if (bufsize) buf.reset(new char[bufsize]);
        setvbuf(fp, buf.get(), bufmode, bufsize);
    }
    return fp;
}

FILE* InStream::open_seeded()
{
    static const unsigned sizes[] = {0, 16, 64, 3, 7, 4096};
    unsigned m = draw(7, "stdio-buffer");
    unsigned cm = draw(4, "chunking");
    max_chunk = cm == 0 ? 0 : cm == 1 ? 1 : cm == 2 ? 8 : 200;
    if (m == 6) return open(_IONBF, 0);
    return open(_IOFBF, sizes[m]);
}

static ssize_t out_write(void* c, const char* buf, size_t size)
{
    Host h;
    OutStream& s = *(OutStream*)c;
    if (s.yields) yield_point("stream-write");
    size_t n = size;
    if (s.fail_at >= 0)
    {
        size_t room = (size_t)s.fail_at > s.data.size() ? s.fail_at - s.data.size() : 0;
        if (room == 0)
        {
            if (!s.fired) fault(s.fail_errno == ENOSPC ? "fault.write_enospc" : "fault.write_eio");
            s.fired = true;
            errno = s.fail_errno;
            return 0;  // fopencookie: 0 reports an error
        }
        n = std::min(n, room);
    }
    if (n < size)
    {
        // glibc turns a short write of a custom stream into an error
        if (!s.fired) fault("fault.write_torn");
        s.fired = true;
        errno = s.fail_errno;
    }
    s.data.append(buf, n);
    if (n == size && s.clobber_errno) errno = ENOTTY;
    return n;
}

static FILE* out_open(OutStream& s)
{
    Host h;
    cookie_io_functions_t io{nullptr, out_write, nullptr, nullptr};
    s.fp = fopencookie(&s, "w", io);
    if (!s.fp) harness_error("fopencookie failed");
    return s.fp;
}

FILE* OutStream::open_plain() { return out_open(*this); }

FILE* OutStream::open_seeded()
{
    static const unsigned sizes[] = {0, 16, 64, 3, 200, 4096};
    unsigned m = draw(7, "stdio-wbuffer");
    out_open(*this);
    if (m == 6) { setvbuf(fp, nullptr, _IONBF, 0); unbuffered = true; }
    else if (sizes[m]) { buf.reset(new char[sizes[m]]); setvbuf(fp, buf.get(), _IOFBF, sizes[m]); }
    return fp;
}

}
