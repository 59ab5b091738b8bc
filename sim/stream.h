// Simulated byte streams behind FILE*: the transport between a peer and the
// library.  Chunking, errors, EOF and yielding to other tasks are seeded.
#pragma once
#include "core.h"
#include <stdio.h>
#include <cerrno>

namespace sim {

struct InStream
{
    std::string data;            // what the peer sent
    size_t pos = 0;
    size_t eof_at;               // stream ends here (truncation), <= data.size()
    ssize_t err_at = -1;         // reading at or past this offset fails once
    int err_no = EIO;
    bool err_sticky = true;
    bool err_fired = false;
    unsigned max_chunk = 0;      // 0: as much as asked
    bool seekable = true;
    off_t base = 0;              // what comes before data in the file, skipped with a seek
    off_t lead = 0;              // bytes before data that stdio still has to read
    bool clobber_errno = false;  // successful calls may leave errno at any value
    bool yields = false;
    std::string name;
    FILE* fp = nullptr;

    explicit InStream(std::string d) : data(std::move(d)), eof_at(data.size()) {}
    ~InStream() { close(); }
    InStream(const InStream&) = delete;
    FILE* open(int bufmode, size_t bufsize);
    // draw buffering and chunking
    FILE* open_seeded();
    void close() { if (fp) { Host h; ::fclose(fp); fp = nullptr; } }
    std::unique_ptr<char[]> buf;
};

struct OutStream
{
    std::string data;            // what reached the sink
    ssize_t fail_at = -1;        // the sink accepts this many bytes, then fails
    int fail_errno = ENOSPC;
    bool fired = false;
    bool yields = false;
    bool clobber_errno = false;
    FILE* fp = nullptr;
    bool unbuffered = false;

    OutStream() {}
    ~OutStream() { close(); }
    OutStream(const OutStream&) = delete;
    FILE* open_seeded();
    FILE* open_plain();
    int close() { int r = 0; if (fp) { Host h; r = ::fclose(fp); fp = nullptr; } return r; }
    std::unique_ptr<char[]> buf;
};

}
