// In-memory stand-ins for the standard streams (include after every header that uses the real ones and
// before the repository headers under check): a file is what is written to it, an input stream is a text.
#pragma once
#include <iomanip>
struct VFile { std::string name; char data[2048]; int n = 0, closed = 0; };
static VFile *vfiles[4]; static int vfiles_nm = 0;
namespace std {
struct verif_ostream {
  VFile *f; int width = 0; char fill = ' ';
  verif_ostream(VFile *f = nullptr) : f{f} {}
  verif_ostream &write(const char *s, long n) { for (long i = 0; i < n; ++i) put(s[i]); return *this; }
  verif_ostream &put(char c) { verif_check(f && !f->closed && f->n < (int)sizeof(f->data), "a write to a stream that is not open"); f->data[f->n++] = c; return *this; }
  verif_ostream &operator<<(char c) { return put(c); }
  verif_ostream &operator<<(unsigned char c) { return put((char)c); }
  verif_ostream &operator<<(const char *s) { while (*s) put(*s++); return *this; }
  verif_ostream &operator<<(const string &s) { return write(s.data(), s.size()); }
  verif_ostream &number(const string &s) { for (int i = (int)s.size(); i < width; ++i) put(fill); width = 0; return write(s.data(), s.size()); }
  verif_ostream &operator<<(int v) { return number(to_string(v)); }
  verif_ostream &operator<<(unsigned v) { return number(to_string(v)); }
  verif_ostream &operator<<(long v) { return number(to_string(v)); }
  verif_ostream &operator<<(unsigned long v) { return number(to_string(v)); }
  verif_ostream &operator<<(double v) { // with 6 decimals
    string s; if (v < 0) { s += '-'; v = -v; }
    long n = (long)(v * 1e6 + 0.5); string d = to_string(n % 1000000);
    s += to_string(n / 1000000); s += '.'; for (size_t i = d.size(); i < 6; ++i) s += '0';
    return number(s + d);
  }
  verif_ostream &operator<<(const _Setw &w) { width = w._M_n; return *this; }
  verif_ostream &operator<<(const _Setfill<char> &c) { fill = c._M_c; return *this; }
  verif_ostream &operator<<(const _Setprecision &) { return *this; }
  verif_ostream &operator<<(ios_base &(*)(ios_base &)) { return *this; }
  verif_ostream &operator<<(basic_ostream<char> &(*)(basic_ostream<char> &)) { return put('\n'); }
  verif_ostream &flush() { return *this; }
  bool good() const { return true; }
  explicit operator bool() const { return true; }
  bool operator!() const { return false; }
};
struct verif_ofstream : verif_ostream {
  verif_ofstream() {}
  verif_ofstream(const string &n, ios::openmode = ios::out) { open(n); }
  verif_ofstream(verif_ofstream &&o) : verif_ostream{o.f} { o.f = nullptr; }
  verif_ofstream &operator=(verif_ofstream &&o) { f = o.f; o.f = nullptr; return *this; }
  void open(const string &n, ios::openmode = ios::out) { f = vfiles[vfiles_nm++] = new VFile; f->name = n; }
  void close() { if (f) f->closed = 1; f = nullptr; }
  bool is_open() const { return f != nullptr; }
  ~verif_ofstream() { close(); }
};
struct verif_istream {
  string text; size_t pos = 0; bool is_eof = false, is_fail = false;
  bool good() const { return !is_eof && !is_fail; }
  bool eof() const { return is_eof; }
  bool fail() const { return is_fail; }
  bool bad() const { return false; }
  explicit operator bool() const { return !is_fail; }
  bool operator!() const { return is_fail; }
  int peek() { if (pos < text.size() && good()) return (unsigned char)text[pos]; is_eof = true; return -1; }
  int get() { if (pos < text.size() && good()) return (unsigned char)text[pos++]; is_eof = is_fail = true; return -1; }
  void clear() { is_eof = is_fail = false; }
};
inline verif_istream &getline(verif_istream &is, string &s, char delim = '\n') {
  if (!is.good()) { is.is_fail = true; return is; }
  s.clear();
  size_t got = 0;
  while (true) {
    if (is.pos >= is.text.size()) { is.is_eof = true; if (!got) is.is_fail = true; break; }
    char c = is.text[is.pos++]; ++got;
    if (c == delim) break;
    s += c;
  }
  return is;
}
struct verif_stringstream : verif_istream {
  verif_stringstream() {}
  explicit verif_stringstream(const string &s) { text = s; }
  string str() const { return text; }
  void str(const string &s) { text = s; pos = 0; clear(); }
};
// the text of a named file (false: there is none)
static bool (*verif_file)(const string &, string &) = nullptr;
struct verif_ifstream : verif_istream {
  verif_ifstream() {}
  explicit verif_ifstream(const string &n, ios::openmode = ios::in) { open(n); }
  void open(const string &n, ios::openmode = ios::in) { pos = 0; clear(); text = ""; opened = verif_file && verif_file(n, text); is_fail = !opened; }
  void close() { opened = false; }
  bool opened = false;
  bool is_open() const { return opened; }
};
struct verif_null { operator verif_ostream &() { static auto &o = *new verif_ostream; return o; } template <class T> verif_null &operator<<(const T &) { return *this; } verif_null &operator<<(basic_ostream<char> &(*)(basic_ostream<char> &)) { return *this; } };
static verif_null verif_out;
}
#define ostream verif_ostream
#define ofstream verif_ofstream
#define istream verif_istream
#define ifstream verif_ifstream
#define stringstream verif_stringstream
#define istringstream verif_stringstream
#define cout verif_out
#define cerr verif_out
#define clog verif_out
