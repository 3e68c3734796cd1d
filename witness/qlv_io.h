// Environment model of text files that keep what is written: a file holds a sequence of numbers separated by white
// space.  Opening, each write, flushing and closing may fail.  Files are told apart by name.
#ifndef QLV_IO_H
#define QLV_IO_H
#include "qlv.h"
#define QLV_STR_HASH
#include "qlv_string.h"
#ifndef QLV_FILES
#define QLV_FILES 2
#endif
#ifndef QLV_FILE_CAP
#define QLV_FILE_CAP 8
#endif
extern "C" void qlv_model_overflow() noexcept __attribute__((noreturn));
inline long qlv_str_cat(long a, long b) noexcept { return a * 1000003 + b; }
inline long qlv_str_num(long n) noexcept { return n * 8 + 3; }
namespace qlv {
struct TextFile { long name; bool there; int n; size_t v[QLV_FILE_CAP]; bool token_open, corrupt; };
struct IoEnv {
  TextFile f[QLV_FILES]; int n_files;
  int fail_open, fail_op, fail_close;       // ordinal of the (write) operation that fails, -1: none
  int opens, ops, closes;
};
static IoEnv io;
static inline void StartIo(int fo = -1, int fp = -1, int fc = -1) {
  io.n_files = 0; io.fail_open = fo; io.fail_op = fp; io.fail_close = fc; io.opens = io.ops = io.closes = 0;
}
template <class F, size_t... K> static inline void EachFile_(F f, std::index_sequence<K...>) { (f(K), ...); }
static inline int FindFile(long name) {
  int r = -1;
  EachFile_([&](size_t k) __attribute__((always_inline)) { if ((int)k < io.n_files && io.f[k].name == name) r = (int)k; }, std::make_index_sequence<QLV_FILES>());
  return r;
}
static inline int MakeFile(long name) {
  int r = FindFile(name);
  if (r < 0) { if (io.n_files >= QLV_FILES) qlv_model_overflow(); r = io.n_files++; io.f[r].name = name; }
  io.f[r].there = true; io.f[r].n = 0; io.f[r].token_open = false; io.f[r].corrupt = false;
  return r;
}
}  // namespace qlv
namespace std {
struct qlv_iobase {
  typedef int openmode; typedef int iostate;
  static constexpr int in = 1, out = 2, binary = 4, trunc = 8, app = 16, ate = 32;
  static constexpr int goodbit = 0, badbit = 1, failbit = 2, eofbit = 4;
  typedef ios_base::failure failure;
  int st_ = 0; int file_ = -1; bool pending_ = false; int pos_ = 0;
  explicit operator bool() const { return !(st_ & (badbit | failbit)); }
  bool operator!() const { return (st_ & (badbit | failbit)) != 0; }
  bool good() const { return st_ == 0; }
  bool fail() const { return (st_ & (badbit | failbit)) != 0; }
  bool bad() const { return (st_ & badbit) != 0; }
  bool eof() const { return (st_ & eofbit) != 0; }
  int rdstate() const { return st_; }
  bool is_open() const { return file_ >= 0; }
  void setstate(int s) { st_ |= s; }
  void clear(int s = 0) { st_ = s; }
  int precision(int) { return 6; }
  int precision() const { return 6; }
};
struct qlv_ostream : qlv_iobase {
  bool ready() {
    if (file_ < 0 || fail()) return false;
    if (qlv::io.ops++ == qlv::io.fail_op) { st_ |= badbit; return false; }
    return true;
  }
  void number(size_t x) {
    if (!ready()) return;
    qlv::TextFile &f = qlv::io.f[file_];
    if (f.token_open) f.corrupt = true;
    if (f.n >= QLV_FILE_CAP) qlv_model_overflow();
    f.v[f.n++] = x; f.token_open = true;
  }
  void ch(char c) { if (!ready()) return; qlv::TextFile &f = qlv::io.f[file_]; if (c == ' ' || c == '\n' || c == '\t') f.token_open = false; else f.corrupt = true; }
  qlv_ostream &operator<<(size_t x) { number(x); return *this; }
  qlv_ostream &operator<<(int x) { number((size_t)x); return *this; }
  qlv_ostream &operator<<(char c) { ch(c); return *this; }
  qlv_ostream &operator<<(const char *s) { ch(*s); return *this; }
  qlv_ostream &operator<<(ostream &(*)(ostream &)) { ch('\n'); return *this; }
  qlv_ostream &put(char c) { ch(c); return *this; }
  qlv_ostream &flush() { return *this; }
};
struct qlv_ofs : qlv_ostream {
  qlv_ofs() {}
  explicit qlv_ofs(const qlv_string &f, int mode = out) { open(f, mode); }
  qlv_ofs(const qlv_ofs &) = delete;
  void open(const qlv_string &f, int mode = out) { if (qlv::io.opens++ == qlv::io.fail_open) { st_ |= failbit; return; } if (mode & app) qlv_model_overflow(); file_ = qlv::MakeFile(f.id); }
  void close() { if (file_ < 0) { st_ |= failbit; return; } file_ = -1; if (qlv::io.closes++ == qlv::io.fail_close) st_ |= failbit; }
};
struct qlv_istream : qlv_iobase {
  qlv_istream &operator>>(size_t &x) {
    if (file_ < 0 || fail()) { st_ |= failbit; return *this; }
    qlv::TextFile &f = qlv::io.f[file_];
    if (f.corrupt || pos_ >= f.n) { st_ |= failbit | eofbit; x = 0; return *this; }
    x = f.v[pos_++]; return *this;
  }
};
struct qlv_ifs : qlv_istream {
  qlv_ifs() {}
  explicit qlv_ifs(const qlv_string &f, int mode = in) { open(f, mode); }
  qlv_ifs(const qlv_ifs &) = delete;
  void open(const qlv_string &f, int = in) { const int k = qlv::FindFile(f.id); if (k < 0 || !qlv::io.f[k].there) st_ |= failbit; else file_ = k; }
  void close() { if (file_ < 0) st_ |= failbit; file_ = -1; }
};
}  // namespace std
#endif
