// Reading files: the system calls are replaced by models that may fail or fall short at every call.
#include "vp.hpp"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>
#include <lexy/input/file.hpp>
#ifdef PORTABLE
#    undef __unix__
#    undef __APPLE__
#endif
#include <lexy/../../src/input/file.cpp>
namespace vp_model
{
namespace
{
#define CHECK(c, m) VP_CHECK("C17", c, m)
constexpr int max_size = 41000;
struct Pattern
{
    unsigned char d[max_size];
    constexpr Pattern() : d{} { for (int i = 0; i < max_size; ++i) d[i] = (unsigned char)((i * 31 + (i >> 8) * 17 + 7) & 0xFF); }
};
constexpr Pattern pattern;
// The world.
struct World
{
    long  size = 0, pos = 0;
    int   err = 0, fd = -1, opened = 0, closed = 0, mapped = 0, unmapped = 0, faults = 0, shorts = 0, calls = 0, failed = 0;
    int   eof = 0, error = 0; // stdio flags
    bool  cut = false;       // the file got shorter while it was read
    void* file = nullptr;
    // what the caller got
    int   calls_back = 0;
} w;
char fake_stdin;
int fault(int e)
{
    if (w.faults < 1 && vp_choice(2)) { ++w.faults; w.err = e; w.failed = 1; return 1; }
    return 0;
}
long transfer(void* buf, unsigned long n)
{
    long left = w.size - w.pos;
    long k    = long(n) < left ? long(n) : left;
    std::memcpy(buf, pattern.d + w.pos, std::size_t(k));
    w.pos += k;
    return k;
}
void receive(void*, const char* memory, std::size_t n)
{
    ++w.calls_back;
    CHECK(w.calls_back == 1, "contents are delivered twice");
    CHECK(long(n) == w.size, "another number of bytes is delivered than the file has");
    auto p = reinterpret_cast<const unsigned char*>(memory);
    for (long i = 0; i < w.size; i = (i < 8 || i >= w.size - 8) ? i + 1 : (i + 97 < w.size - 8 ? i + 97 : w.size - 8))
        CHECK(p[i] == pattern.d[i], "other bytes are delivered than the file has");
}
void done(lexy::file_error e, bool value)
{
    if (e == lexy::file_error::_success)
    {
        CHECK(value, "success is reported but no contents are delivered");
    }
    else CHECK(!value, "contents are delivered together with an error");
    CHECK(w.opened == w.closed, "a descriptor is left open");
    CHECK(w.mapped == w.unmapped, "a mapping is left");
    CHECK(vp_heap_live() == 0, "memory is not given back");
}
} // namespace
extern "C"
{
FILE* stdin;
int* __errno_location() noexcept { return &w.err; }
int open(const char*, int flags, ...)
{
    CHECK((flags & O_ACCMODE) == O_RDONLY && !(flags & (O_TRUNC | O_CREAT | O_APPEND)), "the file is not opened for reading only");
    if (w.faults < 1 && vp_choice(2))
    {
        ++w.faults;
        const int errs[] = {ENOENT, ENOTDIR, ELOOP, EACCES, EPERM, EMFILE, EIO};
        w.err = errs[vp_choice(7)];
        w.failed = 1;
        return -1;
    }
    ++w.opened;
    return w.fd = vp_choice(2) ? 0 : 3;
}
int open64(const char* p, int f, ...) { return open(p, f); }
int openat(int, const char* p, int f, ...) { return open(p, f); }
int close(int fd)
{
    CHECK(w.opened == w.closed + 1 && fd == w.fd, "a descriptor is closed that is not open");
    ++w.closed;
    return 0;
}
static void need(int fd) { CHECK(w.opened == w.closed + 1 && fd == w.fd, "a descriptor is used that is not open"); }
off_t lseek(int fd, off_t off, int whence) noexcept
{
    need(fd);
    if (fault(ESPIPE)) return -1;
    w.pos = whence == SEEK_SET ? off : whence == SEEK_CUR ? w.pos + off : w.size + off;
    return w.pos;
}
off_t lseek64(int fd, off_t off, int whence) noexcept { return lseek(fd, off, whence); }
int fstat(int fd, struct stat* st) noexcept
{
    need(fd);
    if (fault(EIO)) return -1;
    std::memset(st, 0, sizeof(*st));
    st->st_size = w.size;
    st->st_mode = S_IFREG | 0644;
    return 0;
}
ssize_t read(int fd, void* buf, size_t n)
{
    need(fd);
    if (w.faults < 1 && vp_choice(2))
    {
        ++w.faults;
        w.err = vp_choice(2) ? EIO : EINTR;
        if (w.err == EIO) w.failed = 1;
        return -1;
    }
    // fewer bytes than asked for
    if (n > 1 && w.shorts < 2 && vp_choice(2)) { ++w.shorts; return transfer(buf, vp_choice(2) ? n - 1 : 1); }
    return transfer(buf, n);
}
ssize_t pread(int fd, void* buf, size_t n, off_t at) { w.pos = at; return read(fd, buf, n); }
void* mmap(void*, size_t n, int prot, int flags, int fd, off_t off) noexcept
{
    need(fd);
    CHECK(n > 0 && off == 0, "mapping of another part of the file");
    CHECK(prot == PROT_READ, "the file is not mapped for reading");
    if (fault(ENOMEM)) return MAP_FAILED;
    CHECK(long(n) <= w.size, "mapping reaches past the end of the file");
    (void)flags;
    ++w.mapped;
    return const_cast<unsigned char*>(pattern.d);
}
void* mmap64(void* a, size_t n, int prot, int flags, int fd, off_t off) noexcept { return mmap(a, n, prot, flags, fd, off); }
int munmap(void* p, size_t n) noexcept
{
    CHECK(p == pattern.d && w.mapped == w.unmapped + 1, "a mapping is released that does not exist");
    CHECK(long(n) == w.size, "a mapping is released with another size");
    ++w.unmapped;
    return 0;
}
int madvise(void*, size_t, int) noexcept { return vp_choice(2) ? 0 : -1; }
int posix_fadvise(int, off_t, off_t, int) noexcept { return 0; }
// stdio
FILE* fopen(const char*, const char* mode)
{
    CHECK(mode[0] == 'r' && mode[1] != '+' && (mode[1] == 0 || mode[2] != '+'), "the file is not opened for reading only");
    if (open("", O_RDONLY) < 0) return nullptr;
    w.fd = 5;
    w.file = vp_alloc(1);
    return static_cast<FILE*>(w.file);
}
static void needf(FILE* f) { CHECK(f == stdin || (f == w.file && w.opened == w.closed + 1), "a file is used that is not open"); }
int fclose(FILE* f) { needf(f); CHECK(f != stdin, "standard input is closed"); vp_free(w.file, 1); return close(w.fd); }
int fseek(FILE* f, long off, int whence) { needf(f); if (fault(ESPIPE)) return -1; w.pos = whence == SEEK_SET ? off : whence == SEEK_CUR ? w.pos + off : w.size + off; w.eof = 0; return 0; }
long ftell(FILE* f) { needf(f); if (fault(ESPIPE)) return -1; return w.pos; }
void rewind(FILE* f) { needf(f); w.pos = 0; w.eof = w.error = 0; }
size_t fread(void* buf, size_t m, size_t n, FILE* f)
{
    needf(f);
    n *= m;
    if (n == 0) return 0;
    if (w.faults < 1 && vp_choice(2))
    {
        ++w.faults;
        w.failed = w.error = 1;
        w.err = EIO;
        return std::size_t(transfer(buf, vp_choice(2) ? 0 : n / 2)) / m; // a read error, before or after some bytes
    }
    auto k = transfer(buf, n);
    if (std::size_t(k) < n) w.eof = 1;
    return std::size_t(k) / m;
}
int fgetc(FILE* f) { unsigned char c; return fread(&c, 1, 1, f) ? c : EOF; }
int getc(FILE* f) { return fgetc(f); }
int feof(FILE* f) noexcept { needf(f); return w.eof; }
int ferror(FILE* f) noexcept { needf(f); return w.error; }
void clearerr(FILE* f) noexcept { needf(f); w.eof = w.error = 0; }
}
namespace
{
void read_file_witness(const int* sizes, int n)
{
    vp_exact(); vp_cover_decl("success"); vp_cover_decl("failure");
    w = World{};
    int i = 0;
    while (i + 1 < n && vp_choice(2)) ++i;
    w.size = sizes[i];
    auto e = lexy::_detail::read_file("f", &receive, nullptr);
    done(e, w.calls_back == 1);
    // at most the complete contents and nothing else
    if (e != lexy::file_error::_success && !w.opened)
    {
        auto want = w.err == ENOENT || w.err == ENOTDIR || w.err == ELOOP ? lexy::file_error::file_not_found : w.err == EACCES || w.err == EPERM ? lexy::file_error::permission_denied : lexy::file_error::os_error;
        CHECK(e == want, "another error is reported than the one of opening the file");
    }
    if (!w.failed && !w.shorts && w.err == 0) CHECK(e == lexy::file_error::_success, "an error is reported although every call succeeded");
    vp_cover(e == lexy::file_error::_success ? "success" : "failure");
}
} // namespace
#define SIZES(name, ...) WITNESS(name) { static const int sizes[] = {__VA_ARGS__}; read_file_witness(sizes, int(sizeof(sizes) / sizeof(int))); }
SIZES(file_small, 0, 1, 2, 17)
SIZES(file_4k, 4095, 4096, 4097)
SIZES(file_medium, 8000, 8192)
SIZES(file_32k, 32767, 32768)
SIZES(file_large, 32769, 40000)
#ifndef PORTABLE
WITNESS(stdin_)
{
    vp_exact(); vp_cover_decl("success"); vp_cover_decl("failure");
    static const int sizes[] = {0, 1, 5, 999, 1000, 1001, 1999, 2000, 2001, 3999, 4000, 4001};
    w = World{};
    stdin  = reinterpret_cast<FILE*>(&fake_stdin);
    int i = 0;
    while (i + 1 < 12 && vp_choice(2)) ++i;
    w.size = sizes[i];
    auto e = lexy::_detail::read_stdin(&receive, nullptr);
    done(e, w.calls_back == 1);
    if (!w.failed) CHECK(e == lexy::file_error::_success, "an error is reported although every call succeeded");
    vp_cover(e == lexy::file_error::_success ? "success" : "failure");
}
#endif
// through the public functions
template <typename Enc> static void api(bool file)
{
    vp_exact(); vp_cover_decl("success"); vp_cover_decl("failure");
    w = World{};
    stdin  = reinterpret_cast<FILE*>(&fake_stdin);
    static const int sizes[] = {0, 1, 2, 12};
    int i = 0;
    while (i + 1 < 4 && vp_choice(2)) ++i;
    w.size = sizes[i];
    {
        auto r = file ? lexy::read_file<Enc, lexy::encoding_endianness::little>("f") : lexy::read_stdin<Enc, lexy::encoding_endianness::little>();
        if (r)
        {
            CHECK(long(r.buffer().size()) == w.size, "the buffer has another size than the file");
            for (long i = 0; i < w.size; ++i) CHECK((unsigned char)r.buffer().data()[i] == pattern.d[i], "the buffer holds other bytes than the file");
            auto b = static_cast<decltype(r)&&>(r).buffer();
            CHECK(long(b.size()) == w.size, "the buffer has another size than the file");
            vp_cover("success");
        }
        else
        {
            CHECK(r.error() != lexy::file_error::_success, "no error although there is no result");
            CHECK(w.failed || w.shorts || w.err, "an error is reported although every call succeeded");
            vp_cover("failure");
        }
    }
    CHECK(w.opened == w.closed, "a descriptor is left open");
    CHECK(vp_heap_live() == 0, "memory is not given back");
}
WITNESS(api_file) { api<lexy::default_encoding>(true); }
WITNESS(api_file8) { api<lexy::utf8_encoding>(true); }
WITNESS(api_stdin) { api<lexy::utf8_encoding>(false); }
} // namespace vp_model
