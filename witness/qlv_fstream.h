// Environment model of file streams.  Opening, writing, flushing and reading may each fail (arbitrary booleans of
// the environment); the model records which file was touched, what was written and whether it reached the file.
#ifndef QLV_FSTREAM_H
#define QLV_FSTREAM_H
#include "qlv.h"
#include "qlv_string.h"
extern "C" void qlv_bad_stream() noexcept __attribute__((noreturn));
namespace qlv {
struct FileEnv {
  bool open_ok, write_ok, sync_ok, read_ok;   // environment
  long opened; long n_open; int mode;         // file opened, how often, mode
  long n_write; long written; bool synced;    // values written, last value, everything flushed successfully
  long n_read; long content;                  // values read, the value the file holds
  bool close_fails;                           // closing reports an error of its own
};
static FileEnv fe;
static inline void StartFiles(bool o, bool w, bool s, bool r, long c) { fe = FileEnv{o, w, s, r, 0, 0, 0, 0, 0, false, 0, c, false}; }
}  // namespace qlv
namespace std {
struct qlv_ios {
  typedef int openmode; typedef int iostate;
  static constexpr int in = 1, out = 2, binary = 4, trunc = 8, app = 16, ate = 32;
  static constexpr int goodbit = 0, badbit = 1, failbit = 2, eofbit = 4;
};
struct qlv_fbase : qlv_ios {
  int st_ = 0; bool open_ = false; bool pending_ = false;
  explicit operator bool() const { return !(st_ & (badbit | failbit)); }
  bool operator!() const { return (st_ & (badbit | failbit)) != 0; }
  bool good() const { return st_ == 0; }
  bool fail() const { return (st_ & (badbit | failbit)) != 0; }
  bool bad() const { return (st_ & badbit) != 0; }
  bool eof() const { return false; }
  int rdstate() const { return st_; }
  bool is_open() const { return open_; }
  void setstate(int s) { st_ |= s; }
  void clear(int s = 0) { st_ = s; }
  void openf(const qlv_string &f, int mode) {
    qlv::fe.opened = f.id; qlv::fe.n_open++; qlv::fe.mode = mode;
    if (qlv::fe.open_ok) open_ = true; else st_ |= failbit;
  }
};
struct qlv_ofstream : qlv_fbase {
  qlv_ofstream() {}
  explicit qlv_ofstream(const qlv_string &f, int mode = out) { openf(f, mode | out); }
  qlv_ofstream(const qlv_ofstream &) = delete;
  void open(const qlv_string &f, int mode = out) { openf(f, mode | out); }
  void sync() { if (open_ && pending_) { pending_ = false; if (qlv::fe.sync_ok && !bad()) qlv::fe.synced = true; else st_ |= badbit; } }
  qlv_ofstream &flush() { sync(); return *this; }
  void close() { if (!open_) { st_ |= failbit; return; } const int b = st_; sync(); if (st_ != b || qlv::fe.close_fails) st_ |= failbit; open_ = false; }
  ~qlv_ofstream() { if (open_) { sync(); open_ = false; } }
  qlv_ofstream &put_value(long v) {
    if (!open_ || fail()) return *this;
    if (!qlv::fe.write_ok) { st_ |= badbit; return *this; }
    qlv::fe.n_write++; qlv::fe.written = v; pending_ = true; return *this;
  }
};
struct qlv_ifstream : qlv_fbase {
  qlv_ifstream() {}
  explicit qlv_ifstream(const qlv_string &f, int mode = in) { openf(f, mode | in); }
  qlv_ifstream(const qlv_ifstream &) = delete;
  void open(const qlv_string &f, int mode = in) { openf(f, mode | in); }
  void close() { if (!open_) st_ |= failbit; open_ = false; }
  ~qlv_ifstream() { open_ = false; }
  qlv_ifstream &get_value(long &v) {
    if (!open_ || fail()) return *this;
    if (!qlv::fe.read_ok) { st_ |= failbit; return *this; }
    qlv::fe.n_read++; v = qlv::fe.content; return *this;
  }
};
}  // namespace std
#endif
