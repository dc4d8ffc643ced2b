// Replaces the libc entry points std::filebuf uses. Outside a planned operation they forward to the kernel unchanged.
#include "io.hpp"

#include <cerrno>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

namespace simio
{
SysPlan sys;

namespace
{
uint64_t g_calls = 0;
bool interrupted()
{
    if (sys.eintr_every && ++g_calls % sys.eintr_every == 0) {
        sys.eintrs++;
        errno = EINTR;
        return true;
    }
    return false;
}
ssize_t raw_write(int fd, const char* p, size_t n)
{
    return syscall(SYS_write, fd, p, n);
}
ssize_t planned_write(int fd, const char* p, size_t n)
{
    if (interrupted()) {
        return -1;
    }
    sys.writes++;
    size_t k = n;
    if (k > sys.max_write) {
        k = sys.max_write;
        sys.short_writes++;
    }
    if (sys.write_fail_at != SIZE_MAX) {
        if (sys.written >= sys.write_fail_at) {
            sys.errors++;
            errno = sys.write_errno;
            return -1;
        }
        if (sys.written + k > sys.write_fail_at) {
            k = sys.write_fail_at - sys.written;
            sys.short_writes++;
        }
    }
    size_t real = k;
    if (sys.crash_at != SIZE_MAX) {
        real = sys.written >= sys.crash_at ? 0 : std::min(k, sys.crash_at - sys.written);
    }
    if (real) {
        ssize_t w = raw_write(fd, p, real);
        if (w < 0) {
            return w;
        }
    }
    sys.written += k;
    return static_cast<ssize_t>(k);
}
} // namespace

MemFile::MemFile()
{
    fd_ = static_cast<int>(syscall(SYS_memfd_create, "sim", 0));
    if (fd_ < 0) {
        abort();
    }
}
MemFile::~MemFile()
{
    close(fd_);
}
std::string MemFile::path() const
{
    return "/proc/self/fd/" + std::to_string(fd_);
}
void MemFile::put(const std::string& bytes)
{
    if (ftruncate(fd_, 0) != 0) {
        abort();
    }
    size_t off = 0;
    while (off < bytes.size()) {
        ssize_t w = pwrite(fd_, bytes.data() + off, bytes.size() - off, static_cast<off_t>(off));
        if (w <= 0) {
            abort();
        }
        off += static_cast<size_t>(w);
    }
}
std::string MemFile::get() const
{
    struct stat st {};
    fstat(fd_, &st);
    std::string r(static_cast<size_t>(st.st_size), '\0');
    size_t off = 0;
    while (off < r.size()) {
        ssize_t n = pread(fd_, r.data() + off, r.size() - off, static_cast<off_t>(off));
        if (n <= 0) {
            break;
        }
        off += static_cast<size_t>(n);
    }
    r.resize(off);
    return r;
}
} // namespace simio

using simio::sys;

extern "C" ssize_t read(int fd, void* buf, size_t n)
{
    if (!sys.on) {
        return syscall(SYS_read, fd, buf, n);
    }
    sys.allocs_at_last = sim::mem::plan.count;
    if (simio::interrupted()) {
        return -1;
    }
    if (sys.reads == sys.truncate_at_read) {
        sys.cuts++;
        // what the reader already received cannot be taken back
        sys.truncate_to = std::max(sys.truncate_to, sys.delivered);
        if (ftruncate(fd, static_cast<off_t>(sys.truncate_to)) != 0) {
            // read-only descriptor: cut through its path
            char p[64];
            snprintf(p, sizeof(p), "/proc/self/fd/%d", fd);
            if (truncate(p, static_cast<off_t>(sys.truncate_to)) != 0) {
                sys.cuts = 0;
            }
        }
    }
    sys.reads++;
    off_t pos = static_cast<off_t>(syscall(SYS_lseek, fd, 0, SEEK_CUR));
    size_t k = n;
    if (sys.read_error_at != SIZE_MAX && pos >= 0) {
        if (static_cast<size_t>(pos) >= sys.read_error_at) {
            sys.errors++;
            errno = sys.read_errno;
            return -1;
        }
        k = std::min(k, sys.read_error_at - static_cast<size_t>(pos));
    }
    if (k > sys.max_read) {
        k = sys.max_read;
        sys.short_reads++;
    }
    ssize_t r = syscall(SYS_read, fd, buf, k);
    if (r > 0 && pos >= 0) {
        sys.delivered = std::max(sys.delivered, static_cast<size_t>(pos + r));
    }
    return r;
}

extern "C" ssize_t write(int fd, const void* buf, size_t n)
{
    if (!sys.on || fd <= 2) {
        return simio::raw_write(fd, static_cast<const char*>(buf), n);
    }
    return simio::planned_write(fd, static_cast<const char*>(buf), n);
}

extern "C" ssize_t writev(int fd, const struct iovec* v, int cnt)
{
    if (!sys.on || fd <= 2) {
        return syscall(SYS_writev, fd, v, cnt);
    }
    // a gathered write transfers some prefix of the concatenation, like a plain one
    std::string all;
    for (int i = 0; i < cnt; ++i) {
        all.append(static_cast<const char*>(v[i].iov_base), v[i].iov_len);
    }
    return simio::planned_write(fd, all.data(), all.size());
}

extern "C" off64_t lseek64(int fd, off64_t o, int w) noexcept
{
    if (sys.on && fd > 2) {
        sys.seeks++;
        if (sys.seek_fails) {
            sys.errors++;
            errno = ESPIPE;
            return -1;
        }
    }
    return syscall(SYS_lseek, fd, o, w);
}
