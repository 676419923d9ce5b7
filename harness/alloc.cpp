// Drives the allocators of eni on blocks of several kinds of objects.
#include "common.h"
#include <string>
#include <cstddef>
#include <new>
#include <adt/StringHasher.h>
#include <adt/StringHashTable.h>
#include <support/MallocAllocator.h>
using namespace vf;

static __thread long g_Living = 0;
struct Cls {
  int v; Cls* volatile self; void* room;
  Cls() : v(0), self(this), room(malloc(3)) { ++g_Living; }
  Cls(const Cls& o) : v(o.v), self(this), room(malloc(3)) { ++g_Living; }
  Cls& operator=(const Cls& o) { if (self != this || o.self != &o) g_Living = -1000; v = o.v; return *this; }
  ~Cls() { if (self == this) --g_Living; else g_Living = -1000; free(room); self = NULL; }
};
struct Big { double d; int v; char pad[100]; };
template<class T> static int get(const T& t) { return (int)t; }
template<class T> static void put1(T& t, int x) { t = (T)x; }
static int get(const Cls& t) { return t.self == &t ? t.v : -7; }
static void put1(Cls& t, int x) { t.v = x; }
static int get(const Big& t) { for (size_t i = 0; i < sizeof(t.pad); ++i) if (t.pad[i] != (char)t.v) return -7; return t.v; }
static void put1(Big& t, int x) { t.v = x; memset(t.pad, x, sizeof t.pad); }
template<class T> static T mk(int x) { T t = T(); put1(t, x); return t; }

struct Block {
  std::string kind; std::vector<char> live; size_t bytes; unsigned char fill; bool got;
  virtual ~Block() { }
  virtual bool make(size_t n, const std::string& key) = 0;
  virtual void con(size_t) { } virtual void val(size_t, int) { } virtual void cpo(size_t, size_t) { }
  virtual void set(size_t, int) { } virtual void des(size_t) { } virtual void del() = 0;
  virtual int read(size_t) = 0; virtual bool addr(size_t) = 0; virtual unsigned char* raw() = 0; virtual size_t unit() = 0;
  virtual void key() { }
};

template<class T> struct TBlock : Block {
  typedef eni::MallocAllocator<T> A;
  A a; typename A::pointer p;
  bool make(size_t n, const std::string&) { p = (n == 1) ? a.allocate() : a.allocate(n); return NULL != p; }
  void con(size_t i) { a.construct(p + i); }
  void val(size_t i, int x) { T t(mk<T>(x)); a.construct(p + i, t); }
  void cpo(size_t i, size_t j) { a.construct(p + i, p[j]); }
  void set(size_t i, int x) { put1(p[i], x); }
  void des(size_t i) { a.destroy(p + i); }
  void del() { A other(a), third; third = other; typename A::template rebind<T>::other fourth(std::move(third)); fourth.deallocate(p, live.size()); }
  int read(size_t i) { return get(p[i]); }
  bool addr(size_t i) { const T& c = p[i]; return a.address(p[i]) == p + i && a.address(c) == p + i; }
  unsigned char* raw() { return (unsigned char*)p; }
  size_t unit() { return sizeof(T); }
};
struct VBlock : Block {
  typedef eni::MallocAllocator<void> A;
  A a; void* p;
  bool make(size_t n, const std::string&) { p = a.allocate(n); return NULL != p; }
  void del() { A other(a), third; third = other; third.deallocate(p); }
  int read(size_t) { return -1; }
  bool addr(size_t) { const void* c = p; return a.address(p) == p && a.address(c) == p; }
  unsigned char* raw() { return (unsigned char*)p; }
  size_t unit() { return 1; }
};
// one entry with its key behind it
struct EBlock : Block {
  typedef eni::internal::Entry<std::string, Cls> T;
  typedef eni::MallocAllocator<T> A;
  A a; T* p; std::string k;
  bool make(size_t, const std::string& key) { k = key; p = a.allocate(1, &k); return NULL != p; }
  void key() { new (p) T(k); }
  void set(size_t, int x) { p->value().v = x; }
  void des(size_t) { a.destroy(p); }
  void del() { A other(a), third; third = other; third.deallocate(p); }
  int read(size_t) { const T& c = *p; return p->key() == k && &c.value() == &p->value() ? get(p->value()) : -7; }
  bool addr(size_t) { const T& c = *p; return a.address(*p) == p && a.address(c) == p; }
  unsigned char* raw() { return (unsigned char*)p; }
  size_t unit() { return sizeof(T) + k.size() + 1; }
};
static Block* blockOf(const std::string& k)
{
  if (k == "pod") return new TBlock<uint32_t>();
  if (k == "byte") return new TBlock<signed char>();
  if (k == "cls") return new TBlock<Cls>();
  if (k == "big") return new TBlock<Big>();
  if (k == "void") return new VBlock();
  return new EBlock();
}
template<class T> static size_t maxOf() { return eni::MallocAllocator<T>().max_size(); }
template<class T> static bool maxOk() { size_t m = maxOf<T>(), s = sizeof(T); return m == size_t(-1) / s; }
template<class T> static bool huge(const std::string& how, size_t n)
{
  eni::MallocAllocator<T> a;
  size_t m = a.max_size(), r = 0;
  if (how == "over") r = m + 1 + n;                                   // the size in bytes wraps around to a small one
  else if (how == "all") r = size_t(-1) - n;
  else if (how == "half") r = (size_t(1) << 63) / sizeof(T) + 1 + n;   // fits the arithmetic, no memory has it
  else r = m - n;
  T* p = a.allocate(r);
  bool got = NULL != p;
  if (got) a.deallocate(p);
  return got;
}

static void runScript(const std::string&, const Script& s)
{
  static const int NB = 4;
  Block* b[NB + 1] = { 0 };
  unsigned char fill = 0x51;
  g_Living = 0;
  for (size_t q = 0; q < s.size(); ++q) {
    const std::vector<std::string>& w = s[q];
    // op b n i x kind [key]
    std::string op = w[0], kind = w.size() > 5 ? w[5] : "-";
    int k = atoi(w[1].c_str()); size_t n = atol(w[2].c_str()), i = atol(w[3].c_str()); int x = atoi(w[4].c_str());
    if (kind == "-") kind = "";
    int got = 1;
    Block* o = b[k];
    if (op == "new") {
      o = b[k] = blockOf(kind);
      o->kind = kind; o->fill = fill; fill = fill * 5 + 7;
      std::string key = w.size() > 6 ? bytesOf(w[6]) : "";
      o->live.assign(kind == "void" ? 0 : n, 0);
      o->got = got = o->make(n, key);
      o->bytes = kind == "void" ? n : n * o->unit();
      if (o->got) memset(o->raw(), o->fill, o->bytes);
    }
    else if (op == "huge") {
      const std::string& how = w[6];
      got = kind == "pod" ? huge<uint32_t>(how, n) : kind == "big" ? huge<Big>(how, n) : kind == "cls" ? huge<Cls>(how, n) : huge<uint64_t>(how, n);
    }
    else if (op == "con") { o->con(i - 1); o->live[i - 1] = 1; }
    else if (op == "val") { o->val(i - 1, x); o->live[i - 1] = 1; }
    else if (op == "cpo") { o->cpo(i - 1, x - 1); o->live[i - 1] = 1; }
    else if (op == "key") { o->key(); o->live[i - 1] = 1; }
    else if (op == "set") o->set(i - 1, x);
    else if (op == "des") { o->des(i - 1); o->live[i - 1] = 0; memset(o->raw() + (i - 1) * o->unit(), o->fill, o->unit()); }
    else if (op == "del") { o->del(); delete o; b[k] = NULL; }
    if (op == "con" && kind.empty() && b[k]->kind == "big") b[k]->set(i - 1, 0); // padding is not part of a default value
    bool max = maxOk<uint32_t>() && maxOk<char>() && maxOk<Big>() && maxOk<Cls>() && maxOk<eni::internal::Entry<std::string, int> >();
    put("{\"op\":\""); put(op.c_str());
    putf("\",\"b\":%d,\"n\":%zu,\"i\":%zu,\"x\":%d,\"kind\":\"%s\",\"got\":%d,\"max\":%d,\"living\":%ld,\"blocks\":[", k,
         op == "new" && kind == "void" ? 0 : n, i, x, kind.c_str(), got, (int)max, g_Living);
    for (int j = 1; j <= NB; ++j) {
      Block* p = b[j];
      if (j > 1) put(",");
      if (!p) { put("{\"kind\":\"\",\"objs\":[],\"addr\":1,\"mark\":1}"); continue; }
      bool addr = true, mark = true;
      putf("{\"kind\":\"%s\",\"objs\":[", p->kind.c_str());
      for (size_t u = 0; u < p->live.size(); ++u) {
        putf(u ? ",%d" : "%d", p->live[u] ? p->read(u) : -1);
        if (p->got && !p->addr(u)) addr = false;
        if (!p->live[u] && p->got) for (size_t z = 0; z < p->unit(); ++z) if (p->raw()[u * p->unit() + z] != p->fill) mark = false;
      }
      if (p->kind == "void" && p->got && !p->addr(0)) addr = false;
      if (p->kind == "void" && p->got) for (size_t z = 0; z < p->bytes; ++z) if (p->raw()[z] != p->fill) mark = false;
      putf("],\"addr\":%d,\"mark\":%d}", (int)addr, (int)mark);
    }
    put("]}\n");
  }
  for (int j = 1; j <= NB; ++j) if (b[j]) {
    for (size_t u = 0; u < b[j]->live.size(); ++u) if (b[j]->live[u]) b[j]->des(u);
    b[j]->del();
    delete b[j];
  }
}

int main(int argc, char** argv) { return run(argc, argv, runScript); }
