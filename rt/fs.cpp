// File part of the runtime library: files live in memory. File streams work on
// the library's own templates on top of that. C streams are not buffered.
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <fstream>
#include <locale>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

#include "sx.h"
extern "C" void symx_unsupported(const char* what);

namespace {
struct Node {
  char* name;
  unsigned char* data;
  size_t size, cap;
  // a mapping of the first bytes: while it exists they live there
  unsigned char* map;
  size_t mapLen;
  int maps, opens;
  bool linked;
};
struct Handle {
  Node* node;
  size_t pos;
  bool append, used, eof;
};
constexpr int NODES = 64, HANDLES = 64;
Node* nodes[NODES];
Handle handles[HANDLES];

Node* find(const char* name) {
  for (auto n : nodes)
    if (n && n->linked && !strcmp(n->name, name)) return n;
  return nullptr;
}
void setSize(Node* n, size_t size) {
  if (size > n->cap) {
    size_t cap = size < 256 ? 256 : size + size / 2;
    auto p = (unsigned char*)symx_alloc(cap);
    if (n->size) memcpy(p, n->data, n->size);
    if (n->data) symx_free(n->data);
    n->data = p;
    n->cap = cap;
  }
  if (size > n->size) memset(n->data + n->size, 0, size - n->size);
  n->size = size;
}
void get(Node* n, void* to, size_t pos, size_t len) {
  size_t a = pos < n->mapLen ? n->mapLen - pos : 0;
  if (a > len) a = len;
  if (a) memcpy(to, n->map + pos, a);
  if (len > a) memcpy((char*)to + a, n->data + pos + a, len - a);
}
void put(Node* n, const void* from, size_t pos, size_t len) {
  if (!len) return;
  if (pos + len > n->size) setSize(n, pos + len);
  size_t a = pos < n->mapLen ? n->mapLen - pos : 0;
  if (a > len) a = len;
  if (a) memcpy(n->map + pos, from, a);
  if (len > a) memcpy(n->data + pos + a, (const char*)from + a, len - a);
}
void release(Node* n) {
  if (n->linked || n->opens || n->maps) return;
  for (auto& m : nodes)
    if (m == n) m = nullptr;
  symx_free(n->name);
  if (n->data) symx_free(n->data);
  symx_free(n);
}
int openFile(const char* name, bool create, bool trunc, bool append) {
  Node* n = find(name);
  if (!n) {
    if (!create) {
      errno = ENOENT;
      return -1;
    }
    int i = 0;
    while (i < NODES && nodes[i]) i++;
    if (i == NODES) symx_unsupported("too many files");
    n = nodes[i] = (Node*)symx_alloc(sizeof(Node));
    memset(n, 0, sizeof(Node));
    n->name = (char*)symx_alloc(strlen(name) + 1);
    strcpy(n->name, name);
    n->linked = true;
  } else if (trunc) {
    if (n->maps) symx_unsupported("emptying a mapped file");
    n->size = 0;
  }
  int h = 3;
  while (h < HANDLES && handles[h].used) h++;
  if (h == HANDLES) symx_unsupported("too many open files");
  handles[h] = {n, 0, append, true, false};
  n->opens++;
  return h;
}
void closeFile(int fd) {
  if (fd < 3 || fd >= HANDLES || !handles[fd].used) symx_unsupported("closing a file that is not open");
  Node* n = handles[fd].node;
  handles[fd].used = false;
  n->opens--;
  release(n);
}
size_t readAt(int fd, void* to, size_t n, size_t pos) {
  Node* f = handles[fd].node;
  if (pos >= f->size) return 0;
  if (n > f->size - pos) n = f->size - pos;
  get(f, to, pos, n);
  return n;
}
size_t readFile(int fd, void* to, size_t n) {
  size_t r = readAt(fd, to, n, handles[fd].pos);
  handles[fd].pos += r;
  if (r < n) handles[fd].eof = true;
  return r;
}
size_t writeFile(int fd, const void* from, size_t n) {
  Handle& h = handles[fd];
  if (h.append) h.pos = h.node->size;
  put(h.node, from, h.pos, n);
  h.pos += n;
  return n;
}
long seekFile(int fd, long off, int way) {
  Handle& h = handles[fd];
  long base = way == SEEK_SET ? 0 : way == SEEK_CUR ? (long)h.pos : (long)h.node->size;
  if (base + off < 0) {
    errno = EINVAL;
    return -1;
  }
  h.pos = base + off;
  h.eof = false;
  return h.pos;
}
// how fopen understands its mode
bool mode(const char* m, bool& create, bool& trunc, bool& append) {
  create = m[0] != 'r';
  trunc = m[0] == 'w';
  append = m[0] == 'a';
  return m[0] == 'r' || m[0] == 'w' || m[0] == 'a';
}
int fdOf(FILE* f) {
  if (!f) symx_fail("use of a null stream");
  int fd = (int)(((char*)f - (char*)handles) / sizeof(Handle));
  if (fd < 3 || fd >= HANDLES || !handles[fd].used) symx_unsupported("use of a file that is not open");
  return fd;
}
Node* nodeOfMap(void* p) {
  for (auto n : nodes)
    if (n && n->maps && n->map == p) return n;
  symx_unsupported("no such mapping");
  return nullptr;
}
}  // namespace

extern "C" {
FILE* fopen(const char* name, const char* m) {
  bool c, t, a;
  if (!mode(m, c, t, a)) symx_unsupported("fopen mode");
  int fd = openFile(name, c, t, a);
  return fd < 0 ? nullptr : (FILE*)(handles + fd);
}
FILE* fopen64(const char* name, const char* m) { return fopen(name, m); }
int fclose(FILE* f) {
  closeFile(fdOf(f));
  return 0;
}
size_t fread(void* to, size_t s, size_t n, FILE* f) { return s ? readFile(fdOf(f), to, s * n) / s : 0; }
size_t fwrite(const void* from, size_t s, size_t n, FILE* f) { return s ? writeFile(fdOf(f), from, s * n) / s : 0; }
int fseek(FILE* f, long o, int w) { return seekFile(fdOf(f), o, w) < 0 ? -1 : 0; }
int fseeko(FILE* f, off_t o, int w) { return seekFile(fdOf(f), o, w) < 0 ? -1 : 0; }
int fseeko64(FILE* f, off64_t o, int w) { return seekFile(fdOf(f), o, w) < 0 ? -1 : 0; }
long ftell(FILE* f) { return handles[fdOf(f)].pos; }
off_t ftello(FILE* f) { return handles[fdOf(f)].pos; }
off64_t ftello64(FILE* f) { return handles[fdOf(f)].pos; }
int fflush(FILE*) { return 0; }
int feof(FILE* f) { return handles[fdOf(f)].eof; }
int ferror(FILE* f) { return 0; }
int fileno(FILE* f) { return fdOf(f); }
int fgetc(FILE* f) {
  unsigned char c;
  return readFile(fdOf(f), &c, 1) ? c : -1;
}
char* fgets(char* buf, int n, FILE* f) {
  int k = 0;
  while (k + 1 < n) {
    int c = fgetc(f);
    if (c < 0) break;
    buf[k++] = (char)c;
    if (c == '\n') break;
  }
  if (!k) return nullptr;
  buf[k] = 0;
  return buf;
}
int open(const char* name, int flags, ...) { return openFile(name, flags & O_CREAT, flags & O_TRUNC, flags & O_APPEND); }
int open64(const char* name, int flags, ...) {
  return openFile(name, flags & O_CREAT, flags & O_TRUNC, flags & O_APPEND);
}
int close(int fd) {
  closeFile(fd);
  return 0;
}
ssize_t pread(int fd, void* to, size_t n, off_t o) { return readAt(fd, to, n, o); }
ssize_t pread64(int fd, void* to, size_t n, off64_t o) { return readAt(fd, to, n, o); }
ssize_t read(int fd, void* to, size_t n) { return readFile(fd, to, n); }
ssize_t write(int fd, const void* from, size_t n) { return writeFile(fd, from, n); }
off_t lseek(int fd, off_t o, int w) { return seekFile(fd, o, w); }
int truncate(const char* name, off_t size) {
  Node* n = find(name);
  if (!n) {
    errno = ENOENT;
    return -1;
  }
  setSize(n, size);
  return 0;
}
int truncate64(const char* name, off64_t size) { return truncate(name, size); }
int ftruncate(int fd, off_t size) {
  setSize(handles[fd].node, size);
  return 0;
}
int stat(const char* name, struct stat* s) {
  Node* n = find(name);
  if (!n) {
    errno = ENOENT;
    return -1;
  }
  memset(s, 0, sizeof *s);
  s->st_size = n->size;
  s->st_mode = S_IFREG | 0644;
  return 0;
}
int stat64(const char* name, struct stat64* s) {
  struct stat t;
  int r = stat(name, &t);
  if (!r) {
    memset(s, 0, sizeof *s);
    s->st_size = t.st_size;
    s->st_mode = t.st_mode;
  }
  return r;
}
int unlink(const char* name) {
  Node* n = find(name);
  if (!n) {
    errno = ENOENT;
    return -1;
  }
  n->linked = false;
  release(n);
  return 0;
}
int remove(const char* name) { return unlink(name); }
int rename(const char* a, const char* b) {
  Node* n = find(a);
  if (!n) {
    errno = ENOENT;
    return -1;
  }
  if (Node* m = find(b)) {
    m->linked = false;
    release(m);
  }
  symx_free(n->name);
  n->name = (char*)symx_alloc(strlen(b) + 1);
  strcpy(n->name, b);
  return 0;
}
int system(const char* c) {
  if (strncmp(c, "rm -- ", 6)) symx_unsupported("system()");
  return unlink(c + 6) ? 256 : 0;
}
void* mmap(void*, size_t len, int, int, int fd, off_t off) {
  if (fd < 3 || off) symx_unsupported("mmap");
  Node* n = handles[fd].node;
  if (!len) {
    errno = EINVAL;
    return MAP_FAILED;
  }
  if (n->maps) {
    if (len > n->mapLen) symx_unsupported("a second, larger mapping of a file");
  } else {
    size_t have = n->size < len ? n->size : len;
    n->map = (unsigned char*)symx_alloc(len);
    memset(n->map, 0, len);
    if (have) memcpy(n->map, n->data, have);
    n->mapLen = len;
  }
  n->maps++;
  return n->map;
}
void* mmap64(void* a, size_t len, int p, int f, int fd, off64_t off) { return mmap(a, len, p, f, fd, off); }
static void keep(Node* n) {
  size_t have = n->size < n->mapLen ? n->size : n->mapLen;
  if (have) memcpy(n->data, n->map, have);
  symx_free(n->map);
  n->map = nullptr;
  n->mapLen = 0;
}
int munmap(void* p, size_t) {
  Node* n = nodeOfMap(p);
  if (--n->maps == 0) {
    keep(n);
    release(n);
  }
  return 0;
}
void* mremap(void* p, size_t, size_t len, int, ...) {
  Node* n = nodeOfMap(p);
  if (n->maps != 1) symx_unsupported("remapping a file that is mapped twice");
  keep(n);
  size_t have = n->size < len ? n->size : len;
  n->map = (unsigned char*)symx_alloc(len);
  memset(n->map, 0, len);
  if (have) memcpy(n->map, n->data, have);
  n->mapLen = len;
  return n->map;
}
int madvise(void*, size_t, int) { return 0; }
int msync(void*, size_t, int) { return 0; }
int getpagesize() { return (int)symx_param("pagesize", 4096); }
}

namespace std {
__basic_file<char>::__basic_file(__c_lock*) throw() : _M_cfile(nullptr), _M_cfile_created(false) {}
__basic_file<char>::~__basic_file() { close(); }
__basic_file<char>* __basic_file<char>::open(const char* name, ios_base::openmode m, int) {
  if (is_open()) return nullptr;
  bool in = m & ios_base::in, out = m & ios_base::out, trunc = m & ios_base::trunc, app = m & ios_base::app;
  if (!in && !out && !app) return nullptr;
  if (trunc && (app || !out)) return nullptr;
  bool create = app || trunc || !in, empty = trunc || (out && !in && !app);
  int fd = openFile(name, create, empty, app);
  if (fd < 0) return nullptr;
  _M_cfile = (__c_file*)(handles + fd);
  _M_cfile_created = true;
  return this;
}
__basic_file<char>* __basic_file<char>::close() {
  if (!is_open()) return nullptr;
  fclose(_M_cfile);
  _M_cfile = nullptr;
  return this;
}
bool __basic_file<char>::is_open() const throw() { return _M_cfile != nullptr; }
int __basic_file<char>::fd() throw() { return fdOf(_M_cfile); }
__c_file* __basic_file<char>::file() throw() { return _M_cfile; }
streamsize __basic_file<char>::xsputn(const char* s, streamsize n) { return writeFile(fd(), s, n); }
streamsize __basic_file<char>::xsputn_2(const char* a, streamsize n, const char* b, streamsize m) {
  if (n) writeFile(fd(), a, n);
  if (m) writeFile(fd(), b, m);
  return n + m;
}
streamsize __basic_file<char>::xsgetn(char* s, streamsize n) { return readFile(fd(), s, n); }
streamoff __basic_file<char>::seekoff(streamoff o, ios_base::seekdir w) throw() {
  return seekFile(fd(), o, w == ios_base::beg ? SEEK_SET : w == ios_base::cur ? SEEK_CUR : SEEK_END);
}
int __basic_file<char>::sync() { return 0; }
streamsize __basic_file<char>::showmanyc() { return handles[fd()].node->size - handles[fd()].pos; }

using Cvt = codecvt<char, char, mbstate_t>;
Cvt::codecvt(size_t r) : __codecvt_abstract_base<char, char, mbstate_t>(r) {}
Cvt::~codecvt() {}
codecvt_base::result Cvt::do_out(mbstate_t&, const char* f, const char*, const char*& fn, char* t, char*, char*& tn) const {
  fn = f;
  tn = t;
  return noconv;
}
codecvt_base::result Cvt::do_in(mbstate_t&, const char* f, const char*, const char*& fn, char* t, char*, char*& tn) const {
  fn = f;
  tn = t;
  return noconv;
}
codecvt_base::result Cvt::do_unshift(mbstate_t&, char* t, char*, char*& tn) const {
  tn = t;
  return noconv;
}
int Cvt::do_encoding() const throw() { return 1; }
bool Cvt::do_always_noconv() const throw() { return true; }
int Cvt::do_length(mbstate_t&, const char* f, const char* e, size_t max) const {
  return (size_t)(e - f) < max ? (int)(e - f) : (int)max;
}
int Cvt::do_max_length() const throw() { return 1; }
static const Cvt& plain() {
  static Cvt c(1);
  return c;
}
}  // namespace std
extern "C" {
const void* sx_plainConversion() { return &std::plain(); }
}
namespace std {
template class basic_filebuf<char>;
template class basic_ifstream<char>;
template class basic_ofstream<char>;
template class basic_fstream<char>;
}  // namespace std
