// Simulated storage: stream buffers whose transfers, seeks and failures are planned by the simulator, and control over
// the system calls below std::filebuf (see sysio.cpp).
#pragma once
#include "core.hpp"

#include <algorithm>
#include <cstring>
#include <ios>
#include <streambuf>
#include <string>

namespace simio
{
struct DeviceError : std::exception
{
    const char* what() const noexcept override { return "simulated device error"; }
};

// ---------------------------------------------------------------- reading
class In : public std::streambuf
{
public:
    std::string data;         // what the device holds now
    size_t chunk = 64;        // bytes delivered per refill
    bool direct = false;      // large reads bypass the buffer, as std::filebuf does
    bool seekable = true;     // false: every positioning call fails
    bool fail_end = false;    // positioning to the end fails
    bool fail_beg = false;    // positioning to the beginning fails
    bool fail_tell = false;   // the position cannot be told
    bool throw_on_seek = false; // positioning failure shows as an exception
    size_t error_at = SIZE_MAX; // device error when byte index >= this is needed
    bool error_throws = true;   // else the device just stops delivering (transfer ends early)
    size_t change_after = SIZE_MAX; // after this many refills/measurements the content becomes `changed`
    std::string changed;
    // observed
    uint64_t refills = 0, seeks = 0, delivered_to = 0, ticks = 0;
    uint64_t allocs_at_last = 0; // allocations (as counted by the plan) before the last use of the device
    bool hit_error = false, hit_seek_error = false, hit_change = false;

    explicit In(std::string d) : data(std::move(d)) {}
    void start(size_t at) { off_ = std::min(at, data.size()); }

protected:
    void tick()
    {
        allocs_at_last = sim::mem::plan.count;
        if (!hit_change && ticks++ >= change_after) {
            hit_change = true;
            // what a reader already received cannot be taken back: a shrinking source keeps at least that much
            if (changed.size() < delivered_to && data.compare(0, changed.size(), changed) == 0) {
                changed = data.substr(0, delivered_to);
            }
            data = changed;
        }
    }
    int_type underflow() override
    {
        if (gptr() < egptr()) {
            return traits_type::to_int_type(*gptr());
        }
        tick();
        ++refills;
        size_t n = std::min(chunk, sizeof(buf_));
        n = off_ < data.size() ? std::min(n, data.size() - off_) : 0;
        n = limit(n);
        if (n == 0) {
            setg(buf_, buf_, buf_);
            return traits_type::eof();
        }
        memcpy(buf_, data.data() + off_, n);
        off_ += n;
        delivered_to = std::max<uint64_t>(delivered_to, off_);
        setg(buf_, buf_, buf_ + n);
        return traits_type::to_int_type(*gptr());
    }
    std::streamsize xsgetn(char* s, std::streamsize n) override
    {
        if (!direct) {
            return std::streambuf::xsgetn(s, n);
        }
        std::streamsize got = std::min<std::streamsize>(n, egptr() - gptr());
        memcpy(s, gptr(), got);
        gbump(static_cast<int>(got));
        while (got < n) {
            tick();
            ++refills;
            size_t k = off_ < data.size() ? std::min<size_t>({ chunk, data.size() - off_, static_cast<size_t>(n - got) }) : 0;
            k = limit(k);
            if (k == 0) {
                break;
            }
            memcpy(s + got, data.data() + off_, k);
            off_ += k;
            got += k;
            delivered_to = std::max<uint64_t>(delivered_to, off_);
        }
        return got;
    }
    pos_type seekoff(off_type o, std::ios_base::seekdir dir, std::ios_base::openmode) override
    {
        tick();
        ++seeks;
        bool tell = o == 0 && dir == std::ios_base::cur;
        if (!seekable || (tell && fail_tell) || (!tell && dir == std::ios_base::end && fail_end)
            || (!tell && dir == std::ios_base::beg && fail_beg)) {
            hit_seek_error = true;
            if (throw_on_seek) {
                throw DeviceError();
            }
            return pos_type(off_type(-1));
        }
        off_type here = static_cast<off_type>(off_) - (egptr() - gptr());
        if (tell) {
            return pos_type(here);
        }
        off_type base = dir == std::ios_base::beg ? 0 : dir == std::ios_base::cur ? here : static_cast<off_type>(data.size());
        off_type to = base + o;
        if (to < 0) {
            return pos_type(off_type(-1));
        }
        off_ = static_cast<size_t>(to);
        setg(buf_, buf_, buf_);
        return pos_type(to);
    }
    pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios_base::beg, m); }

private:
    size_t limit(size_t n)
    {
        if (error_at == SIZE_MAX || off_ + n <= error_at) {
            return n;
        }
        if (off_ >= error_at) {
            hit_error = true;
            if (error_throws) {
                throw DeviceError();
            }
            return 0;
        }
        return error_at - off_;
    }
    size_t off_ = 0;
    char buf_[8192];
};

// ---------------------------------------------------------------- writing
class Out : public std::streambuf
{
public:
    std::string stored;         // what reached the device
    size_t buffer = 0;          // 0: unbuffered
    size_t capacity = SIZE_MAX; // bytes the device takes before it fails
    bool full_throws = false;   // the failure shows as an exception
    bool hit_full = false;
    uint64_t transfers = 0;

    void use_buffer(size_t n)
    {
        buffer = std::min(n, sizeof(buf_));
        setp(buf_, buf_ + buffer);
    }

protected:
    bool push(const char* s, size_t n, size_t& took)
    {
        ++transfers;
        took = std::min(n, capacity - std::min(capacity, stored.size()));
        stored.append(s, took);
        if (took < n) {
            hit_full = true;
            if (full_throws) {
                throw DeviceError();
            }
            return false;
        }
        return true;
    }
    bool drain()
    {
        size_t took = 0;
        size_t n = pptr() - pbase();
        if (n == 0) {
            return true;
        }
        bool ok = push(pbase(), n, took);
        setp(buf_, buf_ + buffer);
        return ok;
    }
    int_type overflow(int_type c) override
    {
        if (buffer && !drain()) {
            return traits_type::eof();
        }
        if (traits_type::eq_int_type(c, traits_type::eof())) {
            return traits_type::not_eof(c);
        }
        char ch = traits_type::to_char_type(c);
        if (buffer) {
            *pptr() = ch;
            pbump(1);
            return c;
        }
        size_t took = 0;
        return push(&ch, 1, took) ? c : traits_type::eof();
    }
    std::streamsize xsputn(const char* s, std::streamsize n) override
    {
        if (!buffer) {
            size_t took = 0;
            push(s, static_cast<size_t>(n), took);
            return static_cast<std::streamsize>(took);
        }
        return std::streambuf::xsputn(s, n);
    }
    int sync() override { return drain() ? 0 : -1; }

private:
    char buf_[4096];
};

// ---------------------------------------------------------------- files (system calls below std::filebuf)
struct SysPlan
{
    bool on = false;
    size_t max_read = SIZE_MAX;   // short reads
    size_t max_write = SIZE_MAX;  // short writes
    uint64_t eintr_every = 0;     // every n-th transfer is interrupted first
    size_t read_error_at = SIZE_MAX;  // EIO when the file position reaches this
    int read_errno = 5;
    size_t write_fail_at = SIZE_MAX;  // ENOSPC/EIO once this many bytes were written
    int write_errno = 28;
    bool seek_fails = false;
    uint64_t truncate_at_read = UINT64_MAX; // before the n-th read the file is cut to truncate_to
    size_t truncate_to = 0;
    // observed
    uint64_t reads = 0, writes = 0, eintrs = 0, short_reads = 0, short_writes = 0, errors = 0, seeks = 0, cuts = 0;
    size_t written = 0;
    uint64_t allocs_at_last = 0; // allocations (as counted by the plan) before the last use of the device
    size_t delivered = 0; // bytes handed to the reader so far (as a position)
    size_t crash_at = SIZE_MAX; // the process "dies" here: later bytes are swallowed
};
extern SysPlan sys;

// An anonymous in-memory file, reachable by path.
class MemFile
{
public:
    MemFile();
    ~MemFile();
    MemFile(const MemFile&) = delete;
    std::string path() const;
    void put(const std::string& bytes);
    std::string get() const;

private:
    int fd_;
};
} // namespace simio
