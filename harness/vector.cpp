// Replays vector and random-access iterator scripts on the code and records every call.
#include "common.h"
#include <sys/mman.h>
#include <adt/Vector.h>
#include <diagnostic/Exception.h>
#include <json/Value.h>
#include <algorithm>
#include <list>
#include <numeric>

using namespace vf;

struct Pod { int a; double b; char c[24]; };
template<class T> struct Enc;
template<> struct Enc<int> {
  static int to(int v) { return v; }
  static int from(const int& v) { return v; }
};
template<> struct Enc<unsigned char> {
  static unsigned char to(int v) { return (unsigned char)v; }
  static int from(const unsigned char& v) { return v; }
};
template<> struct Enc<Pod> {
  static Pod to(int v) { Pod p; memset(&p, 0, sizeof p); p.a = v; p.b = v; for (int i = 0; i < 24; ++i) p.c[i] = (char)v; return p; }
  static int from(const Pod& p) {
    for (int i = 0; i < 24; ++i) if (p.c[i] != (char)p.a) return -7;
    return p.b == p.a ? p.a : -8;
  }
};
template<> struct Enc<json::Value> {
  static json::Value to(int v) {
    if (v == 0) return json::Value();
    if (v % 2) return json::Value(v);
    return json::Value(std::string(30, 'x') + std::to_string(v));
  }
  static int from(const json::Value& v) {
    if (v.isUndefined()) return 0;
    if (v.isInteger()) return atoi(v.toInteger().str().c_str());
    if (v.isString()) return v.toString().size() > 30 ? atoi(v.toString().c_str() + 30) : -7;
    return -8;
  }
};

template<class T> struct Lists {
  // an initializer list with the given values
  template<class F> static void with(const std::vector<int>& l, F f) {
    typedef std::initializer_list<T> IL;
    std::vector<T> t; for (size_t i = 0; i < l.size(); ++i) t.push_back(Enc<T>::to(l[i]));
    switch (l.size()) {
    case 0: f(IL{}); break;
    case 1: f(IL{t[0]}); break;
    case 2: f(IL{t[0], t[1]}); break;
    case 3: f(IL{t[0], t[1], t[2]}); break;
    case 4: f(IL{t[0], t[1], t[2], t[3]}); break;
    case 5: f(IL{t[0], t[1], t[2], t[3], t[4]}); break;
    default: f(IL{t[0], t[1], t[2], t[3], t[4], t[5]}); break;
    }
  }
};

template<class T> struct Runner
{
  typedef eni::Vector<T> V;
  typedef Enc<T> E;
  enum { N = 3 };
  V* vec[N + 1];
  bool runs;   // contents as runs
  explicit Runner(bool r = false) : runs(r) { memset(vec, 0, sizeof vec); }
  ~Runner() { for (int i = 0; i <= N; ++i) delete vec[i]; }

  static int val(const T& t) { return E::from(t); }

  // do all ways of reading a vector agree?
  static bool views(V& v) {
    const V& c = v;
    size_t n = v.size(), k = 0;
    if (v.empty() != (n == 0) || c.empty() != v.empty() || c.size() != n) return false;
    for (typename V::iterator i = v.begin(); i != v.end(); ++i, ++k) if (k >= n || &*i != &v[k] || &v[k] != &c[k] || &v[k] != v.data() + k || &v.at(k) != &v[k] || &c.at(k) != &c[k]) return false;
    if (k != n) return false;
    k = 0;
    for (typename V::const_iterator i = c.begin(); i != c.end(); ++i, ++k) if (k >= n || &*i != &c[k]) return false;
    if (k != n) return false;
    if (n && (&v.front() != &v[0] || &v.back() != &v[n - 1])) return false;
    return (size_t)(v.end() - v.begin()) == n;
  }
  static void list(V& v) {
    put("[");
    for (size_t i = 0; i < v.size() && i < 3000; ++i) putf(i ? ",%d" : "%d", val(v[i]));
    put("]");
  }

  static void runList(const std::vector<int>& l) {
    put("[");
    for (size_t i = 0, j; i < l.size(); i = j) {
      for (j = i; j < l.size() && l[j] == l[i]; ++j) {}
      putf(i ? ",[%d,%d]" : "[%d,%d]", l[i], (int)(j - i));
    }
    put("]");
  }

  // op v i n x [list...], an element of the list is a value or value*count
  void op(const std::vector<std::string>& w) {
    std::string o = w[0];
    int v = atoi(w[1].c_str()), i = atoi(w[2].c_str()), n = atoi(w[3].c_str()), x = atoi(w[4].c_str());
    std::vector<int> l;
    for (size_t k = 5; k < w.size(); ++k) {
      size_t m = w[k].find('*');
      l.insert(l.end(), m == std::string::npos ? 1 : atoi(w[k].c_str() + m + 1), atoi(w[k].c_str()));
    }
    std::vector<T> tl; for (size_t k = 0; k < l.size(); ++k) tl.push_back(E::to(l[k]));
    const T* lp = tl.empty() ? (const T*)0 : &tl[0];
    putf("{\"op\":\"%s\",\"v\":%d,\"i\":%d,\"n\":%d,\"x\":%d,", o.c_str(), v, i, n, x);
    if (runs) { put("\"lr\":"); runList(l); }
    else {
      put("\"lst\":[");
      for (size_t k = 0; k < l.size(); ++k) putf(k ? ",%d" : "%d", l[k]);
      put("]");
    }
    const char* exc = "none";
    long pos = -1, ret = -1, self = -1;
    V*& p = vec[v];
    T* before = p && p->size() ? p->data() : 0;
    T tx = E::to(x);
    typedef typename V::iterator It;
    typedef typename V::const_iterator CIt;
    size_t huge = 0;
    try {
      if (o == "new") p = new V();
      else if (o == "newn") p = new V((size_t)n);
      else if (o == "newf") p = new V((size_t)n, tx);
      else if (o == "newsv") p = new V(tl);
      else if (o == "newil") Lists<T>::with(l, [&](std::initializer_list<T> il) { p = new V(il); });
      else if (o == "cpy") p = new V(*vec[x]);
      else if (o == "mov") p = new V(std::move(*vec[x]));
      else if (o == "asgm") self = &(*p = std::move(*vec[x])) == p;
      else if (o == "sws") std::swap(*p, *vec[x]);
      else if (o == "del") { delete p; p = 0; }
      else if (o == "push") p->push_back(tx);
      else if (o == "pusha") p->push_back((*p)[x]);
      else if (o == "emp") p->emplace_back(tx);
      else if (o == "empa") p->emplace_back((*p)[x]);
      else if (o == "pop") ret = val(p->pop_back());
      else if (o == "ins") { p->insert((size_t)i, tx); pos = -2; }
      else if (o == "insi") { It r_ = p->insert(p->begin() + i, tx); pos = r_ - p->begin(); }
      else if (o == "insa") { p->insert((size_t)i, (*p)[x]); pos = -2; }
      else if (o == "insai") { It r_ = p->insert(p->begin() + i, (*p)[x]); pos = r_ - p->begin(); }
      else if (o == "insn") { p->insert((size_t)i, (size_t)n, tx); pos = -2; }
      else if (o == "insni") { It r_ = p->insert(p->begin() + i, (size_t)n, tx); pos = r_ - p->begin(); }
      else if (o == "insna") { p->insert((size_t)i, (size_t)n, (*p)[x]); pos = -2; }
      else if (o == "insnai") { It r_ = p->insert(p->begin() + i, (size_t)n, (*p)[x]); pos = r_ - p->begin(); }
      else if (o == "insr") { p->insert((size_t)i, CIt(lp), CIt(lp + l.size())); pos = -2; }
      else if (o == "insri") { It r_ = p->insert(p->begin() + i, CIt(lp), CIt(lp + l.size())); pos = r_ - p->begin(); }
      else if (o == "insl") { Lists<T>::with(l, [&](std::initializer_list<T> il) { p->insert((size_t)i, il); }); pos = -2; }
      else if (o == "insli") Lists<T>::with(l, [&](std::initializer_list<T> il) { { It r_ = p->insert(p->begin() + i, il); pos = r_ - p->begin(); } });
      else if (o == "insbig") { huge = x == 1 ? p->max_size() + 1 - p->size() : (size_t)-1; p->insert((size_t)i, huge, E::to(1)); }
      else if (o == "era") { p->erase((size_t)i); pos = -2; }
      else if (o == "erai") { It r_ = p->erase(p->begin() + i); pos = r_ - p->begin(); }
      else if (o == "err") { p->erase((size_t)i, (size_t)n); pos = -2; }
      else if (o == "erri") { It r_ = p->erase(p->begin() + i, p->begin() + n); pos = r_ - p->begin(); }
      else if (o == "rsz") p->resize((size_t)n);
      else if (o == "rszf") p->resize((size_t)n, tx);
      else if (o == "rsza") p->resize((size_t)n, (*p)[x]);
      else if (o == "rszbig") p->resize(x == 0 ? p->max_size() : x == 1 ? p->max_size() + 1 : (size_t)-1);
      else if (o == "resbig") p->reserve(x == 0 ? p->max_size() : x == 1 ? p->max_size() + 1 : (size_t)-1);
      else if (o == "asn") p->assign((size_t)n, tx);
      else if (o == "asna") p->assign((size_t)n, (*p)[x]);
      else if (o == "asr") p->assign(CIt(lp), CIt(lp + l.size()));
      else if (o == "asl") Lists<T>::with(l, [&](std::initializer_list<T> il) { p->assign(il); });
      else if (o == "asgl") Lists<T>::with(l, [&](std::initializer_list<T> il) { self = &(*p = il) == p; });
      else if (o == "asgv") self = &(*p = *vec[x]) == p;
      else if (o == "swp") p->swap(*vec[x]);
      else if (o == "clr") p->clear();
      else if (o == "res") p->reserve((size_t)n);
      else if (o == "shr") p->shrink_to_fit();
      else if (o == "at") ret = val(p->at((size_t)i));
      else if (o == "cat") ret = val(((const V*)p)->at((size_t)i));
      else if (o == "idx") ret = val((*p)[(size_t)i]);
      else if (o == "cidx") ret = val((*(const V*)p)[(size_t)i]);
      else if (o == "dat") ret = val(p->data()[i]);
      else if (o == "frt") ret = val(p->front());
      else if (o == "bck") ret = val(p->back());
      else if (o == "setat") p->at((size_t)i) = tx;
      else if (o == "seti") (*p)[(size_t)i] = tx;
      else if (o == "setd") *(p->begin() + i) = tx;
      else { fprintf(stderr, "unknown op %s\n", o.c_str()); exit(3); }
    }
    catch (const eni::OutOfRange<eni::InvalidVectorIndex>&) { exc = "index"; pos = -1; }
    catch (const eni::LengthError<eni::InvalidVectorSize>&) { exc = "size"; pos = -1; }
    catch (const eni::BadAlloc<eni::NoMemory>&) { exc = "nomem"; pos = -1; }
    catch (...) { exc = "other"; pos = -1; }
    putf(",\"exc\":\"%s\",\"pos\":%ld,\"val\":%ld,\"self\":%ld", exc, pos, ret, self);
    if (p) putf(",\"sz\":%d,\"emp\":%d,\"cap\":%ld,\"capok\":%d,\"views\":%d,\"moved\":%d", (int)p->size(), (int)p->empty(),
                (long)(p->capacity() > 1000000 ? 1000000 : p->capacity()), (int)(p->capacity() >= p->size()), (int)views(*p),
                before ? (int)(before != p->data()) : -1);
    put(runs ? ",\"runs\":[" : ",\"all\":[");
    for (int k = 1; k <= N; ++k) {
      if (k > 1) put(",");
      if (!vec[k]) put(runs ? "[[-1,1]]" : "[-1]");
      else if (!runs) list(*vec[k]);
      else { std::vector<int> c; for (size_t j = 0; j < vec[k]->size(); ++j) c.push_back(val((*vec[k])[j])); runList(c); }
    }
    put("]}\n");
  }

  static void script(const Script& s, size_t from) {
    Runner r(s[0][0] == "vecr");
    for (size_t n = from; n < s.size(); ++n) r.op(s[n]);
  }
};

// ---- iterators: registers 1..4 over one vector ----
// the difference as a number, and as what a program that asks for its sign sees
template<class It> static long dif(const It& x, const It& y)
{
  long d = (long)(x - y);
  if ((x - y < 0) != (d < 0) || (x - y > 0) != (d > 0) || (long double)(x - y) != (long double)d) return 999999;
  return d;
}

template<class T, class It, class Vec> struct IterRunner
{
  typedef Enc<T> E;
  static void script(Vec& v, const Script& s, size_t from) {
    It r[5] = { v.begin(), v.begin(), v.begin(), v.begin(), v.begin() };
#define POS(x) ((long)(&*(x) - v0))
    const T* v0 = &*v.begin();
    for (size_t n = from; n < s.size(); ++n) {
      const std::vector<std::string>& w = s[n];
      const std::string& o = w[0];
      int a = atoi(w[1].c_str()), b = w.size() > 2 ? atoi(w[2].c_str()) : 0, k = w.size() > 3 ? atoi(w[3].c_str()) : 0;
      putf("{\"op\":\"%s\",\"a\":%d,\"b\":%d,\"k\":%d", o.c_str(), a, b, k);
      long ret = -1;
      if (o == "beg") r[a] = v.begin();
      else if (o == "end") r[a] = v.end();
      else if (o == "set") { It& x = (r[a] = r[b]); ret = &x == &r[a]; }
      else if (o == "cpy") { It c(r[b]); r[a] = c; ++c; ret = POS(c); }
      else if (o == "chain") { r[a] = r[b] = r[k]; }
      else if (o == "inc") { It& x = ++r[a]; ret = &x == &r[a]; }
      else if (o == "dec") { It& x = --r[a]; ret = &x == &r[a]; }
      else if (o == "pinc") ret = POS(r[a]++);
      else if (o == "pdec") ret = POS(r[a]--);
      else if (o == "adds") { It& x = (r[a] += (size_t)k); ret = &x == &r[a]; }
      else if (o == "subs") { It& x = (r[a] -= (size_t)k); ret = &x == &r[a]; }
      else if (o == "addn") { r[a] = r[b] + k; }
      else if (o == "subn") { r[a] = r[b] - (size_t)k; }
      else if (o == "dif") ret = dif(r[a], r[b]);
      else if (o == "cmp") { const It& x = r[a]; const It& y = r[b]; ret = (x == y) + 2 * (x != y) + 4 * (x < y) + 8 * (x > y) + 16 * (x <= y) + 32 * (x >= y); }
      else if (o == "get") ret = E::from(*r[a]);
      else if (o == "cget") { const It& x = r[a]; ret = E::from(*x); }
      else if (o == "arr") ret = E::from(*r[a].operator->());
      else if (o == "carr") { const It& x = r[a]; ret = E::from(*x.operator->()); }
      else if (o == "idx") ret = E::from(r[a][(size_t)k]);
      else if (o == "ref") ret = (&*r[a] == &*(v.begin() + POS(r[a]))) && (&r[a][0] == &*r[a]);
      else special(v, r, w, ret);
      putf(",\"ret\":%ld,\"p\":[%ld,%ld,%ld,%ld],\"s\":[", ret, POS(r[1]), POS(r[2]), POS(r[3]), POS(r[4]));
      bool first = true;
      for (It i = v.begin(); i != v.end(); ++i) { putf(first ? "%d" : ",%d", E::from(*i)); first = false; }
      put("]}\n");
    }
  }
  static void special(const eni::Vector<T>& v, It* r, const std::vector<std::string>& w, long& ret) {
    const std::string& o = w[0];
    int a = atoi(w[1].c_str()), b = w.size() > 2 ? atoi(w[2].c_str()) : 0, k = w.size() > 3 ? atoi(w[3].c_str()) : 0;
    if (o == "afind") { It f = std::find(r[a], r[b], E::to(k)); ret = f - v.begin(); }
    else if (o == "acount") ret = std::count(r[a], r[b], E::to(k));
    else if (o == "adist") ret = std::distance(r[a], r[b]);
    else if (o == "alow") ret = std::lower_bound(r[a], r[b], E::to(k)) - v.begin();
    else if (o == "amax") ret = std::max_element(r[a], r[b]) - v.begin();
    else if (o == "aeq") ret = std::equal(r[a], r[b], v.begin() + k);
    else { fprintf(stderr, "unknown op %s\n", o.c_str()); exit(3); }
  }
  static void special(eni::Vector<T>& v, It* r, const std::vector<std::string>& w, long& ret) {
    const std::string& o = w[0];
    int a = atoi(w[1].c_str()), b = w.size() > 2 ? atoi(w[2].c_str()) : 0, k = w.size() > 3 ? atoi(w[3].c_str()) : 0;
    if (o == "put") *r[a] = E::to(k);
    else if (o == "puti") r[a][(size_t)b] = E::to(k);
    else if (o == "asort") std::sort(r[a], r[b]);
    else if (o == "assort") std::stable_sort(r[a], r[b]);
    else if (o == "arev") std::reverse(r[a], r[b]);
    else if (o == "arot") { std::rotate(r[a], r[b], v.begin() + k); }
    else if (o == "afill") std::fill(r[a], r[b], E::to(k));
    else if (o == "acopyb") std::copy_backward(r[a], r[b], v.begin() + k);
    else if (o == "acopy") std::copy(r[a], r[b], v.begin() + k);
    else if (o == "aswap") std::iter_swap(r[a], r[b]);
    else if (o == "aheap") { std::make_heap(r[a], r[b]); std::sort_heap(r[a], r[b]); }
    else if (o == "anth") std::nth_element(r[a], v.begin() + k, r[b]);
    else special((const eni::Vector<T>&)v, (It*)r, w, ret, 0);
  }
  // shared read-only algorithms on mutable iterators
  static void special(const eni::Vector<T>& cv, It* r, const std::vector<std::string>& w, long& ret, int) {
    eni::Vector<T>& v = const_cast<eni::Vector<T>&>(cv);
    const std::string& o = w[0];
    int a = atoi(w[1].c_str()), b = w.size() > 2 ? atoi(w[2].c_str()) : 0, k = w.size() > 3 ? atoi(w[3].c_str()) : 0;
    It bg(&v[0]);
    if (o == "afind") { It f = std::find(r[a], r[b], E::to(k)); ret = f - bg; }
    else if (o == "acount") ret = std::count(r[a], r[b], E::to(k));
    else if (o == "adist") ret = std::distance(r[a], r[b]);
    else if (o == "alow") ret = std::lower_bound(r[a], r[b], E::to(k)) - bg;
    else if (o == "amax") ret = std::max_element(r[a], r[b]) - bg;
    else if (o == "aeq") ret = std::equal(r[a], r[b], bg + k);
    else { fprintf(stderr, "unknown op %s\n", o.c_str()); exit(3); }
  }
};

template<class T> static void iters(bool cnst, const Script& s)
{
  // first op: it <kind> values...
  eni::Vector<T> v;
  for (size_t i = 2; i < s[0].size(); ++i) v.push_back(Enc<T>::to(atoi(s[0][i].c_str())));
  const eni::Vector<T>& c = v;
  if (cnst) IterRunner<T, typename eni::Vector<T>::const_iterator, const eni::Vector<T> >::script(c, s, 1);
  else IterRunner<T, typename eni::Vector<T>::iterator, eni::Vector<T> >::script(v, s, 1);
}

// ---- iterators over storage larger than a program would fill ----
template<int N> struct Blk { unsigned char c[N]; };
template<class T, class It> static void wide(T* m, size_t count, const Script& s)
{
  T* v0 = m;
  It first(v0), last(v0 + count);
  It r[5] = { first, first, first, first, first };
#define READ(x) ((long)*(const unsigned char*)&(x))
  for (size_t n = 1; n < s.size(); ++n) {
    const std::vector<std::string>& w = s[n];
    const std::string& o = w[0];
    int a = atoi(w[1].c_str()); long b = atol(w[2].c_str()), k = atol(w[3].c_str());
    putf("{\"op\":\"%s\",\"a\":%d,\"b\":%ld,\"k\":%ld", o.c_str(), a, b, k);
    long ret = -1;
    if (o == "beg") r[a] = first;
    else if (o == "end") r[a] = last;
    else if (o == "set") { It& x = (r[a] = r[b]); ret = &x == &r[a]; }
    else if (o == "cpy") { It c(r[b]); r[a] = c; ++c; ret = POS(c); }
    else if (o == "inc") { It& x = ++r[a]; ret = &x == &r[a]; }
    else if (o == "dec") { It& x = --r[a]; ret = &x == &r[a]; }
    else if (o == "pinc") ret = POS(r[a]++);
    else if (o == "pdec") ret = POS(r[a]--);
    else if (o == "adds") { It& x = (r[a] += (size_t)k); ret = &x == &r[a]; }
    else if (o == "subs") { It& x = (r[a] -= (size_t)k); ret = &x == &r[a]; }
    else if (o == "addn") r[a] = r[b] + (size_t)k;
    else if (o == "subn") r[a] = r[b] - (size_t)k;
    else if (o == "dif") ret = dif(r[a], r[b]);
    else if (o == "adist") ret = (long)std::distance(r[a], r[b]);
    else if (o == "cmp") { const It& x = r[a]; const It& y = r[b]; ret = (x == y) + 2 * (x != y) + 4 * (x < y) + 8 * (x > y) + 16 * (x <= y) + 32 * (x >= y); }
    else if (o == "get") ret = READ(*r[a]);
    else if (o == "cget") { const It& x = r[a]; ret = READ(*x); }
    else if (o == "arr") ret = READ(*r[a].operator->());
    else if (o == "carr") { const It& x = r[a]; ret = READ(*x.operator->()); }
    else if (o == "idx") ret = READ(r[a][(size_t)k]);
    else if (o == "put") *(unsigned char*)&*r[a] = (unsigned char)k;
    else if (o == "puti") *(unsigned char*)&r[a][(size_t)b] = (unsigned char)k;
    else { fprintf(stderr, "unknown op %s\n", o.c_str()); exit(3); }
    putf(",\"ret\":%ld,\"p\":[%ld,%ld,%ld,%ld]}\n", ret, POS(r[1]), POS(r[2]), POS(r[3]), POS(r[4]));
  }
}
template<class T> static void wideOf(bool cnst, const Script& s)
{
  size_t count = atol(s[0][2].c_str());
  void* m = mmap(NULL, count * sizeof(T), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (MAP_FAILED == m) return;   // no room for it here: no events
  if (cnst) wide<const T, eni::PointerIterator<const T> >((const T*)m, count, s);
  else wide<T, eni::PointerIterator<T> >((T*)m, count, s);
  munmap(m, count * sizeof(T));
}

static void runScript(const std::string& mode, const Script& s)
{
  const std::string& k = s[0][1];
  if (s[0][0] == "vec" || s[0][0] == "vecr") {
    if (k == "int") Runner<int>::script(s, 1);
    else if (k == "uchar") Runner<unsigned char>::script(s, 1);
    else if (k == "pod") Runner<Pod>::script(s, 1);
    else if (k == "val") Runner<json::Value>::script(s, 1);
    else exit(3);
  }
  else if (s[0][0] == "it") {
    if (k == "int") iters<int>(false, s);
    else if (k == "cint") iters<int>(true, s);
    else if (k == "uchar") iters<unsigned char>(false, s);
    else if (k == "cuchar") iters<unsigned char>(true, s);
    else exit(3);
  }
  else if (s[0][0] == "itw") {
    if (k == "w1") wideOf<unsigned char>(false, s);
    else if (k == "cw1") wideOf<unsigned char>(true, s);
    else if (k == "w24") wideOf<Blk<24> >(false, s);
    else if (k == "cw4096") wideOf<Blk<4096> >(true, s);
    else if (k == "w1m") wideOf<Blk<1 << 20> >(false, s);
    else exit(3);
  }
  else exit(3);
}

int main(int argc, char** argv) { return vf::run(argc, argv, runScript); }
