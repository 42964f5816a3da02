// Seams owned by the simulator: allocator, file system calls, streams, thread schedule, execution budget.
// Nothing here needs a hook in the code under test.
#pragma once
#include <cstddef>
#include <cstdint>
#include <istream>
#include <string>
#include <vector>
#include <functional>

namespace faults {
// ---- allocator seam: operator new is replaced for the whole process
void lib_enter();               // calls into the code under test are bracketed by lib_enter / lib_leave
void lib_leave();
struct Lib { Lib() { lib_enter(); } ~Lib() { lib_leave(); } };
void alloc_fail_at(long k);     // the k-th allocation from now inside the bracket fails (0: none)
void disarm();                  // cancel a pending failure, keep alloc_fired
bool alloc_fired();             // did it
long lib_allocs();              // allocations made inside brackets since alloc_fail_at
long lib_live();                // blocks allocated inside brackets and still live
void lib_forget();              // forget about live blocks (after a run that may legitimately leak)

// ---- file system seam: fopen/read/write/writev/fclose used by fstream
struct Disk {
    long open_errno = 0;        // fopen fails with this errno
    long write_limit = -1;      // bytes accepted before write_errno
    int write_errno = 0;
    bool silent_loss = false;   // bytes past write_limit are acknowledged but lost (crash before they are durable)
    long short_io = 0;          // each read/write transfers at most this many bytes
    long eintr_every = 0;       // every n-th call is interrupted first
    long read_limit = -1;       // bytes delivered before read_errno
    int read_errno = 0;
    int close_errno = 0;
};
void disk_set(const Disk &d);
void disk_clear();
struct DiskFired { long open = 0, werr = 0, lost = 0, shorts = 0, eintr = 0, rerr = 0, close = 0; };
DiskFired disk_fired();

// ---- hostile input stream
class ChunkBuf : public std::streambuf {
public:
    enum End { EOF_, THROW };
    ChunkBuf(std::string s, std::vector<int> chunks, long fault_at, End how) : s_(std::move(s)), ch_(std::move(chunks)), at_(fault_at), how_(how) {}
    bool fired = false; long reads = 0;
protected:
    int_type underflow() override {
        size_t lim = at_ >= 0 ? std::min((size_t)at_, s_.size()) : s_.size();
        if (pos_ >= lim) {
            if (at_ >= 0) { fired = true; if (how_ == THROW) throw std::string("simulated I/O error"); }
            return traits_type::eof();
        }
        size_t n = ch_.empty() ? s_.size() : (size_t)std::max(1, ch_[reads % ch_.size()]);
        ++reads;
        n = std::min(n, lim - pos_);
        setg(&s_[pos_], &s_[pos_], &s_[pos_] + n);
        pos_ += n;
        return traits_type::to_int_type(*gptr());
    }
private:
    std::string s_; std::vector<int> ch_; long at_; End how_; size_t pos_ = 0;
};

// ---- execution budget (edges of instrumented code), so that endless loops end deterministically
void budget(uint64_t edges);
void arm(uint64_t edges);            // the same, except while simulated threads run (they share one budget)
uint64_t edges_executed();
// ---- edge coverage of the code under test
size_t edges_total();
std::vector<uint32_t> edges_hit();   // indices hit since process start
void reset_path_hash();
uint64_t path_hash();                // set of edges hit since reset, hashed with rough counts

// ---- thread scheduler: one thread runs at a time, switches happen at instrumented edges
struct Switch { uint64_t edge; int to; };                   // global edge count -> thread
struct SchedResult { std::vector<Switch> trace; uint64_t edges; };
// runs bodies as real threads under a seeded or recorded schedule
SchedResult run_threads(std::vector<std::function<void()>> bodies, uint64_t seed, double mean_gap, const std::vector<Switch> *replay);
[[noreturn]] void die(const char *cls, const std::string &msg); // report a fatal violation of the running process
} // namespace faults
