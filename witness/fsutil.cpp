#include "qlv.h"
#include "qlv_string.h"
#include <filesystem>
#include <system_error>
#include <exception>
// Environment model of the file system as one path (the one the obligation passes).  A missing path may turn into a
// directory between any two calls (another process creates it); every query or creation may fail with an error.
enum { MISSING = 0, PLAINFILE = 1, DIR = 2 };
static int kind;                 // what stands at the path
static bool may_race, may_fail;  // environment: another process is active / calls may fail
static bool failed;              // some call failed
static long want; static bool foreign, created; static long touched;
static unsigned long race_bits;   // when: one arbitrary bit per call
static inline bool qlv_race() { const bool b = race_bits & 1; race_bits >>= 1; return b; }
static unsigned long err_bits;
static inline bool qlv_errs() { const bool b = err_bits & 1; err_bits >>= 1; return b; }
struct qlv_fserror : std::exception {};
static inline void Env(long id) {
  ++touched;
  if (id != want) foreign = true;
  if (kind == MISSING && may_race && qlv_race()) kind = DIR;
}
static inline bool Err() { if (may_fail && qlv_errs()) { failed = true; return true; } return false; }
namespace std {
namespace qlv_filesystem {
struct path {
  long id;
  path(const qlv_string &s) : id(s.id) {}
  path(const char *s) : id(reinterpret_cast<long>(s)) {}
  qlv_string string() const { return qlv_string(id); }
  bool empty() const { return id == 0; }
};
typedef qlv_fserror filesystem_error;
enum class file_type { not_found, regular, directory };
struct file_status { file_type t; file_type type() const { return t; } };
static inline file_status stat_(const path &p) { Env(p.id); return {kind == DIR ? file_type::directory : kind == PLAINFILE ? file_type::regular : file_type::not_found}; }
static inline file_status status(const path &p) { if (Err()) throw qlv_fserror(); return stat_(p); }
static inline file_status status(const path &p, error_code &ec) { if (Err()) ec = make_error_code(errc::io_error); else ec.clear(); return stat_(p); }
static inline bool exists(file_status s) { return s.t != file_type::not_found; }
static inline bool is_directory(file_status s) { return s.t == file_type::directory; }
static inline bool exists(const path &p) { return exists(status(p)); }
static inline bool exists(const path &p, error_code &ec) { auto s = status(p, ec); return !ec && exists(s); }
static inline bool is_directory(const path &p) { return is_directory(status(p)); }
static inline bool is_directory(const path &p, error_code &ec) { auto s = status(p, ec); return !ec && is_directory(s); }
static inline bool mk_(const path &p, bool &err) {
  Env(p.id);
  err = false;
  if (kind == DIR) return false;
  if (kind == PLAINFILE || Err()) { err = true; failed = true; return false; }
  kind = DIR; created = true; return true;
}
static inline bool create_directories(const path &p) { bool e; bool r = mk_(p, e); if (e) throw qlv_fserror(); return r; }
static inline bool create_directories(const path &p, error_code &ec) { bool e; bool r = mk_(p, e); if (e) ec = make_error_code(errc::io_error); else ec.clear(); return r; }
static inline bool create_directory(const path &p) { return create_directories(p); }
static inline bool create_directory(const path &p, error_code &ec) { return create_directories(p, ec); }
}  // namespace qlv_filesystem
struct qlv_sink { template <class T> const qlv_sink &operator<<(const T &) const { return *this; } const qlv_sink &operator<<(ostream &(*)(ostream &)) const { return *this; } };
static const qlv_sink qlv_cout, qlv_cerr, qlv_clog;
}  // namespace std
#define string qlv_string
#define filesystem qlv_filesystem
#define cout qlv_cout
#define cerr qlv_cerr
#define clog qlv_clog
#include "qlpeps/utility/filesystem_utils.h"
#undef string
#undef filesystem
#undef cout
#undef cerr
using namespace qlpeps;
using namespace qlv;
//@ fs_*: include/qlpeps/utility/filesystem_utils.h :: CreatePath / EnsureDirectoryExists / IsPathExist -- the result states truthfully whether the directory (path) is there
static inline void Begin(long id, int k, bool race, bool fail, unsigned long bits, unsigned long ebits = 0) { want = id; kind = k; may_race = race; may_fail = fail; failed = false; foreign = false; created = false; touched = 0; race_bits = bits; err_bits = ebits; }
template <int F> static inline bool Call(const std::qlv_string &s) { return F == 0 ? CreatePath(s) : EnsureDirectoryExists(s); }
// no error: missing or directory, another process may create it meanwhile
template <int F> static inline void Make(long id, int k, bool race, unsigned long bits) {
  ASSUME(id != 0); ASSUME(k == MISSING || k == DIR);
  Begin(id, k, race, false, bits);
  const bool ok = Call<F>(std::qlv_string(id));
  REQF(fs_make, success, ok);
  REQF(fs_make, truth, kind == DIR);
  REQF(fs_make, no_foreign, !foreign);
}
OBX(fs_make_c0, long id, int k) { Make<0>(id, k, false, 0); }
OBX(fs_make_c1, long id, int k, unsigned long bits) { Make<0>(id, k, true, bits); }
OBX(fs_make_e0, long id, int k) { Make<1>(id, k, false, 0); }
OBX(fs_make_e1, long id, int k, unsigned long bits) { Make<1>(id, k, true, bits); }
// a plain file stands there: never reported as a directory
template <int F> static inline void Plain(long id) {
  ASSUME(id != 0);
  Begin(id, PLAINFILE, false, false, 0);
  const bool ok = Call<F>(std::qlv_string(id));
  REQF(fs_plain, result, !ok);
}
OBX(fs_plain_c, long id) { Plain<0>(id); }
OBX(fs_plain_e, long id) { Plain<1>(id); }
// errors at any call: success is claimed only for a directory
template <int F> static inline void Fails(long id, int k, unsigned long bits, unsigned long ebits) {
  ASSUME(id != 0); ASSUME(k >= 0 && k <= 2);
  Begin(id, k, true, true, bits, ebits);
  const bool ok = Call<F>(std::qlv_string(id));
  REQF(fs_fails, truth, !ok || kind == DIR);
}
OBX(fs_fails_c, long id, int k, unsigned long bits, unsigned long e) { Fails<0>(id, k, bits, e); }
OBX(fs_fails_e, long id, int k, unsigned long bits, unsigned long e) { Fails<1>(id, k, bits, e); }
OBX(fs_exist, long id, int k) {
  ASSUME(id != 0); ASSUME(k >= 0 && k <= 2);
  Begin(id, k, false, false, 0);
  const bool ok = IsPathExist(std::qlv_string(id));
  REQF(fs_exist, value, ok == (k != MISSING));
  REQF(fs_exist, pure, kind == k && !created && !foreign);
}
OBX(fs_existf, long id, int k, unsigned long e) {
  ASSUME(id != 0); ASSUME(k == MISSING);
  Begin(id, k, false, true, 0, e);
  const bool ok = IsPathExist(std::qlv_string(id));
  REQF(fs_existf, truth, !ok);
}
OBX(fs_none) {
  Begin(0, MISSING, false, false, 0);
  std::qlv_string s;
  REQ(fs_none, !IsPathExist(s)); REQ(fs_none, !CreatePath(s)); REQ(fs_none, !EnsureDirectoryExists(s)); REQ(fs_none, kind == MISSING && !created);
}
