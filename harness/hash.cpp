// Replays hash table / string map scripts on the code and records every call.
#include "common.h"
#include <adt/HashTable.h>
#include <adt/StringHashTable.h>
#include <adt/StringMap.h>
#include <diagnostic/Exception.h>

using namespace vf;

enum { MaxTables = 4, MaxKeys = 400000 };

static __thread long g_Live = 0, g_KeyLive = 0, g_Bad = 0;

// a value that counts its instances and notices use before construction or after destruction
struct Tracked
{
  volatile unsigned magic; int v;
  Tracked() : magic(0x7ac4ed), v(0) { ++g_Live; }
  Tracked(const Tracked& o) : magic(0x7ac4ed), v(o.v) { if (o.magic != 0x7ac4ed) ++g_Bad; ++g_Live; }
  Tracked& operator=(const Tracked& o) {
    if (magic != 0x7ac4ed || o.magic != 0x7ac4ed) ++g_Bad;
    v = o.v; return *this;
  }
  ~Tracked() { if (magic != 0x7ac4ed) ++g_Bad; magic = 0xdead; --g_Live; }
};
static int toInt(const Tracked& t) { if (t.magic != 0x7ac4ed) ++g_Bad; return t.v; }
static void fromInt(Tracked& t, int v) { t.v = v; }
static int toInt(const int& t) { return t; }
static void fromInt(int& t, int v) { t = v; }
static int toInt(const unsigned char& t) { return t; }
static void fromInt(unsigned char& t, int v) { t = (unsigned char)v; }
static int toInt(const std::string& s) { return s.empty() ? 0 : atoi(s.c_str() + 40); }
static void fromInt(std::string& s, int v) { s.assign(40, 'v'); s += std::to_string(v); }

static __thread unsigned* g_Hash = NULL;
struct IntKey
{
  volatile int id;
  explicit IntKey(int i) : id(i) { ++g_KeyLive; }
  IntKey(const IntKey& o) : id(o.id) { ++g_KeyLive; }
  ~IntKey() { id = -7; --g_KeyLive; }
  bool operator==(const IntKey& o) const { return id == o.id; }
};
struct IntHasher { unsigned operator()(const IntKey& k) const { return g_Hash[k.id]; } };

static __thread std::string* g_Keys = NULL;
static __thread int g_NKeys = 0;
static __thread int g_Span = 0; // number of keys in use + 1

static __thread std::map<std::string, int>* g_Index = 0;
static int indexOf(const std::string& s)
{
  std::map<std::string, int>::const_iterator i = g_Index->find(s);
  return i == g_Index->end() ? -1 : i->second;
}

template<class K> struct KeyOf;
template<> struct KeyOf<IntKey> {
  static IntKey make(int i) { return IntKey(i); }
  static int back(const IntKey& k) { return k.id; }
};
template<> struct KeyOf<std::string> {
  static const std::string& make(int i) { return g_Keys[i]; }
  static int back(const std::string& k) { return indexOf(k); }
};

// walks from it to end, one letter of pat per step: the way the iterator is moved on, copied, assigned or made const
template<class K, class It, class CIt> static void walk(It it, It end, CIt cend, const std::string& pat)
{
  int ok = 1, n = 0;
  size_t p = 0;
  CIt cit;
  bool isConst = false;
  put(",\"lst\":[");
  while (isConst ? cit != cend : it != end) {
    char m = pat[p++ % pat.size()];
    if (!isConst && (m == 'd' || m == 'e')) {
      if (m == 'd') cit = it; else { CIt tmp(it); cit = tmp; ok &= tmp == cit; }
      isConst = true;
      if (KeyOf<K>::back(cit->key()) != KeyOf<K>::back(it->key()) || &cit->value() != &it->value()) ok = 0;
    }
    if (isConst) {
      const CIt& c = cit;
      putf("%s[%d,%d]", n ? "," : "", KeyOf<K>::back(c->key()), toInt((*c).value()));
      if (m == 'b') { CIt old(cit); CIt r = cit++; ok &= r == old; ok &= cit != old; }
      else if (m == 'c') { CIt x(cit), y; ok &= x == cit; ++x; ok &= x != cit; y = x; ok &= !(y != x); cit = y; }
      else { CIt old(cit); CIt& r = ++cit; ok &= &r == &cit; ok &= cit != old; }
    } else {
      const It& c = it;
      ok &= &(*it) == it.operator->() && &(*c) == c.operator->() && &(*c) == &(*it);
      putf("%s[%d,%d]", n ? "," : "", KeyOf<K>::back(it->key()), toInt((*it).value()));
      if (m == 'b') { It old(it); It r = it++; ok &= r == old; ok &= it != old; }
      else if (m == 'c') { It x(it), y; ok &= x == it; ++x; ok &= x != it; y = x; ok &= !(y != x); it = y; }
      else { It old(it); It& r = ++it; ok &= &r == &it; ok &= it != old; }
    }
    if (++n > 100000) break;
  }
  putf("],\"ok\":%d", ok);
}

// the ways of using an end iterator that raise the empty-iterator error, as bits
template<class It> static int refuses(It i, int arrow, int next, int star, int carrow, int cstar)
{
  typedef eni::LogicError<eni::InvalidIteratorEmpty> Err;
  int got = 0;
  const It& c = i;
  try { i->value(); } catch (const Err&) { got |= arrow; } catch (...) {}
  try { (*i).value(); } catch (const Err&) { got |= star; } catch (...) {}
  try { c->value(); } catch (const Err&) { got |= carrow; } catch (...) {}
  try { (*c).value(); } catch (const Err&) { got |= cstar; } catch (...) {}
  if (next) {
    It j(i), k(i);
    bool a = false, b = false;
    try { ++j; } catch (const Err&) { a = true; } catch (...) {}
    try { k++; } catch (const Err&) { b = true; } catch (...) {}
    if (a && b) got |= next;
  }
  return got;
}

template<class T> struct Full
{
  typedef T table;
  typedef typename T::key_type K;
  enum { ReplaceMoved = 0 };
  static void counters(const T& t) {
    double lf = t.numOfBuckets() ? t.load_factor() : 0;
    putf(",\"nb\":%d,\"ne\":%d,\"nt\":%d,\"emp\":%d,\"lf\":%d", (int)t.numOfBuckets(), (int)t.numOfEntries(),
         (int)t.numOfTombstones(), (int)t.empty(), (int)(lf * 1000 + 0.5));
  }
  static size_t size(const T& t) { return t.numOfEntries(); }
  // chain iterators at their end: dereferencing raises the error
  static int chainEnds(T& t, int k) {
    const T& ct = t;
    typename T::chain_iterator i = t.begin(KeyOf<K>::make(k)), e = t.end(KeyOf<K>::make(k));
    for (int c = 0; i != e && c < 1000000; ++c) ++i;
    typename T::const_chain_iterator ci = ct.begin(KeyOf<K>::make(k)), ce = ct.end(KeyOf<K>::make(k));
    for (int c = 0; ci != ce && c < 1000000; ++c) ci++;
    // moving on from the end stays there
    typename T::chain_iterator j(i), f(e); ++j; ++f;
    typename T::const_chain_iterator cj(ci), cf(ce); cj++; cf++;
    if (j != e || f != e || cj != ce || cf != ce) return 0;
    return (refuses(i, 1, 0, 2, 4, 8) == 15 && refuses(ci, 1, 0, 2, 4, 8) == 15 ? 512 : 0)
           | (refuses(e, 1, 0, 2, 4, 8) == 15 && refuses(ce, 1, 0, 2, 4, 8) == 15 ? 1024 : 0);
  }
  static void* insert(T& t, int k, bool& ex, int& old) {
    typename T::entry_type* e = t.insert(KeyOf<K>::make(k), ex);
    old = toInt(e->value());
    return e;
  }
  static void set(void* e, int v) {
    typename T::value_type val; fromInt(val, v);
    ((typename T::entry_type*)e)->setValue(val);
  }
  static bool special(T& t, const std::vector<std::string>& w) {
    const T& ct = t;
    if (w[0] == "cnt") { putf(",\"ret\":%d", (int)ct.count(KeyOf<K>::make(atoi(w[2].c_str())))); return true; }
    if (w[0] == "reh") { t.rehash(); return true; }
    if (w[0] == "rehn") { t.rehash((size_t)atol(w[2].c_str())); return true; }
    if (w[0] == "mchn") {
      const K& k = KeyOf<K>::make(atoi(w[2].c_str()));
      walk<K, typename T::chain_iterator, typename T::const_chain_iterator>(t.begin(k), t.end(k), ct.end(k), w[3]);
      return true;
    }
    if (w[0] == "chn") {
      typename T::chain_iterator it, e = t.end(KeyOf<K>::make(atoi(w[2].c_str())));
      put(",\"lst\":["); int n = 0;
      for (it = t.begin(KeyOf<K>::make(atoi(w[2].c_str()))); it != e; ++it) {
        putf("%s[%d,%d]", n ? "," : "", KeyOf<K>::back(it->key()), toInt((*it).value()));
        if (++n > 100000) break;
      }
      put("]");
      return true;
    }
    if (w[0] == "cchn") {
      typename T::const_chain_iterator it, e = ct.end(KeyOf<K>::make(atoi(w[2].c_str())));
      put(",\"lst\":["); int n = 0;
      for (it = ct.begin(KeyOf<K>::make(atoi(w[2].c_str()))); !(it == e); it++) {
        const typename T::const_chain_iterator& c = it;
        putf("%s[%d,%d]", n ? "," : "", KeyOf<K>::back(c->key()), toInt((*c).value()));
        if (++n > 100000) break;
      }
      put("]");
      return true;
    }
    return false;
  }
};

template<class V> struct Map
{
  typedef eni::StringMap<V> table;
  typedef std::string K;
  static void counters(const table& t) { putf(",\"ne\":%d,\"emp\":%d", (int)t.size(), (int)t.empty()); }
  enum { ReplaceMoved = 1 };   // an empty source shows not whether it was copied or moved: it is replaced by a new map
  static size_t size(const table& t) { return t.size(); }
  static int chainEnds(table&, int) { return 512 + 1024; }   // maps have no chains
  static void* insert(table& t, int k, bool& ex, int& old) {
    // operator[] does not tell whether the key was there: ask find() first
    const table& ct = t;
    ex = ct.find(g_Keys[k]) != ct.end();
    V& v = t[g_Keys[k]];
    old = toInt(v);
    return &v;
  }
  static void set(void* e, int v) { fromInt(*(V*)e, v); }
  static bool special(table& t, const std::vector<std::string>& w) {
    const table& ct = t;
    if (w[0] == "at" || w[0] == "cat" || w[0] == "cidx") {
      int k = atoi(w[2].c_str());
      try {
        int v = w[0] == "at" ? toInt(t.at(g_Keys[k])) : w[0] == "cat" ? toInt(ct.at(g_Keys[k])) : toInt(ct[g_Keys[k]]);
        putf(",\"exc\":\"none\",\"val\":%d", v);
      } catch (const eni::OutOfRange<eni::InvalidStringMapKey>& e) {
        putf(",\"exc\":\"key\",\"val\":0");
      } catch (...) { put(",\"exc\":\"other\",\"val\":0"); }
      return true;
    }
    if (w[0] == "atset") {
      try { fromInt(t.at(g_Keys[atoi(w[2].c_str())]), atoi(w[3].c_str())); put(",\"exc\":\"none\",\"val\":0"); }
      catch (const std::out_of_range&) { put(",\"exc\":\"key\",\"val\":0"); }
      return true;
    }
    return false;
  }
};

template<class F> static void runTables(const Script& s, size_t from, bool track)
{
  typedef typename F::table T;
  typedef typename F::K K;
  T* tab[MaxTables + 1];
  void** known[MaxTables + 1];
  memset(tab, 0, sizeof tab);
  const size_t span = sizeof(void*) * g_Span;
  for (int i = 0; i <= MaxTables; ++i) known[i] = (void**)calloc(1, span + 1);
  g_Live = g_KeyLive = g_Bad = 0;
  size_t base = heapBytes();
  for (size_t n = from; n < s.size(); ++n) {
    const std::vector<std::string>& w = s[n];
    const std::string& op = w[0];
    int t = atoi(w[1].c_str());
    int a = w.size() > 2 ? atoi(w[2].c_str()) : 0;
    int b = w.size() > 3 ? atoi(w[3].c_str()) : 0;
    putf("{\"op\":\"%s\",\"t\":%d,\"a\":%d,\"b\":%d", op.c_str(), t, a, b);
    if (op == "new") { tab[t] = a < 0 ? new T() : new T((size_t)a); memset(known[t], 0, span); }
    else if (op == "cpy") { tab[t] = new T(*tab[a]); memset(known[t], 0, span); }
    else if (op == "mov") { tab[t] = new T(std::move(*tab[a])); memset(known[t], 0, span); memset(known[a], 0, span); }
    else if (op == "asg") { T& r = (*tab[t] = *tab[a]); putf(",\"self\":%d", (int)(&r == tab[t])); if (t != a) memset(known[t], 0, span); }
    else if (op == "mas") {
      T& r = (*tab[t] = std::move(*tab[a])); putf(",\"self\":%d", (int)(&r == tab[t]));
      memset(known[t], 0, span); memset(known[a], 0, span);
    }
    else if (op == "del") { delete tab[t]; tab[t] = 0; memset(known[t], 0, span); }
    else if (op == "ins" || op == "add") {
      bool ex; int old;
      void* e = F::insert(*tab[t], a, ex, old);
      int ok = 1;
      if (ex && known[t][a]) ok = known[t][a] == e;
      known[t][a] = e;
      if (op == "ins") F::set(e, b);
      putf(",\"ex\":%d,\"val\":%d,\"ptr\":%d", (int)ex, old, ok);
    }
    else if (op == "era") { bool r = tab[t]->erase(KeyOf<K>::make(a)); known[t][a] = 0; putf(",\"ret\":%d", (int)r); }
    else if (op == "fnd") {
      typename T::iterator it = tab[t]->find(KeyOf<K>::make(a));
      bool f = it != tab[t]->end();
      int ok = 1;
      if (f && known[t][a]) {
        // hash tables hand out entries, string maps hand out values
        ok = known[t][a] == (void*)it.operator->() || known[t][a] == (void*)&it->value();
      }
      putf(",\"ret\":%d,\"key\":%d,\"val\":%d,\"ptr\":%d", (int)f, f ? KeyOf<K>::back(it->key()) : 0, f ? toInt(it->value()) : 0, ok);
    }
    else if (op == "cfnd") {
      const T& ct = *tab[t];
      typename T::const_iterator it = ct.find(KeyOf<K>::make(a));
      bool f = it != ct.end();
      putf(",\"ret\":%d,\"key\":%d,\"val\":%d,\"ptr\":1", (int)f, f ? KeyOf<K>::back(it->key()) : 0, f ? toInt((*it).value()) : 0);
    }
    else if (op == "itr") {
      put(",\"lst\":["); int c = 0;
      typename T::iterator it, e = tab[t]->end();
      for (it = tab[t]->begin(); it != e; ) {
        typename T::iterator cur = it++;
        putf("%s[%d,%d]", c ? "," : "", KeyOf<K>::back((*cur).key()), toInt(cur->value()));
        if (++c > 1000000) break;
      }
      put("]");
    }
    else if (op == "citr") {
      put(",\"lst\":["); int c = 0;
      const T& ct = *tab[t];
      typename T::const_iterator it, e = ct.end();
      for (it = ct.begin(); !(it == e); ++it) {
        putf("%s[%d,%d]", c ? "," : "", KeyOf<K>::back(it->key()), toInt(it->value()));
        if (++c > 1000000) break;
      }
      put("]");
    }
    else if (op == "mitr") {
      const T& ct = *tab[t];
      walk<K, typename T::iterator, typename T::const_iterator>(tab[t]->begin(), tab[t]->end(), ct.end(), w[3]);
    }
    else if (op == "itx") { // end iterators: dereferencing and advancing raise the empty-iterator error
      const T& ct = *tab[t];
      typename T::iterator e = tab[t]->end();
      typename T::const_iterator ce = ct.end();
      int got = refuses(e, 1, 2, 16, 32, 64) | refuses(ce, 4, 8, 128, 2048, 4096);
      // iterators that were moved to the end
      typename T::iterator i = tab[t]->begin();
      for (int c = 0; i != e && c < 1000000; ++c) ++i;
      typename T::const_iterator ci = ct.begin();
      for (int c = 0; ci != ce && c < 1000000; ++c) ci++;
      if (refuses(i, 1, 2, 4, 8, 16) == 31 && refuses(ci, 1, 2, 4, 8, 16) == 31) got |= 256;
      got |= F::chainEnds(*tab[t], a);
      putf(",\"ret\":%d", got);
    }
    else if (op == "rng") { // insert (b=1) or erase (b=0) the keys a..c, one call each; for building big tables
      int c = atoi(w[4].c_str()), cnt = 0;
      for (int k = a; k <= c; ++k) {
        if (b) { bool ex; int old; void* e = F::insert(*tab[t], k, ex, old); F::set(e, k); known[t][k] = e; cnt += !ex; }
        else { cnt += tab[t]->erase(KeyOf<K>::make(k)); known[t][k] = 0; }
      }
      putf(",\"c\":%d,\"ret\":%d", c, cnt);
    }
    else if (op == "chk") { // how many of the keys a..c are found, by both lookups and with the right value
      int c = atoi(w[4].c_str()), cnt = 0, cc = 0;
      const T& ct = *tab[t];
      for (int k = a; k <= c; ++k) {
        typename T::iterator i = tab[t]->find(KeyOf<K>::make(k));
        if (i != tab[t]->end() && KeyOf<K>::back(i->key()) == k && toInt(i->value()) == k) ++cnt;
        typename T::const_iterator j = ct.find(KeyOf<K>::make(k));
        if (j != ct.end() && KeyOf<K>::back(j->key()) == k && toInt(j->value()) == k) ++cc;
      }
      putf(",\"c\":%d,\"ret\":%d,\"cret\":%d", c, cnt, cc);
    }
    else if (op == "sum") { // distinct keys seen by the iteration, number of steps
      std::vector<char> seen(g_Span, 0);
      int cnt = 0, dis = 0;
      for (typename T::iterator i = tab[t]->begin(), e = tab[t]->end(); i != e; ++i) {
        int k = KeyOf<K>::back(i->key());
        if (k > 0 && k < g_Span && !seen[k] && toInt(i->value()) == k) { seen[k] = 1; ++dis; }
        if (++cnt > MaxKeys) break;
      }
      putf(",\"ret\":%d,\"cret\":%d", cnt, dis);
    }
    else if (op == "clr") { F::special(*tab[t], w); memset(known[t], 0, span); }
    else if (F::special(*tab[t], w)) { }
    else { fprintf(stderr, "unknown op %s\n", op.c_str()); exit(3); }
    if (op == "mov" || op == "mas") {
      putf(",\"src\":%d", (int)F::size(*tab[a]));
      if (F::ReplaceMoved && a != t && 0 == F::size(*tab[a]) && 0 == F::size(*tab[t])) { delete tab[a]; tab[a] = new T(); }
    }
    if (tab[t]) F::counters(*tab[t]);
    if (track) putf(",\"live\":%ld,\"bad\":%ld", g_Live, g_Bad);
    put("}\n");
  }
  for (int i = 0; i <= MaxTables; ++i) { delete tab[i]; tab[i] = 0; }
  long leak = (long)heapBytes() - (long)base;
  for (int i = 0; i <= MaxTables; ++i) free(known[i]);
  putf("{\"op\":\"end\",\"t\":0,\"a\":0,\"b\":0,\"live\":%ld,\"klive\":%ld,\"bad\":%ld,\"leak\":%ld}\n", track ? g_Live : 0L, g_KeyLive, g_Bad, leak);
}

// hmap has no clear(): string maps inherit it privately
template<class T> struct Clearable : public Full<T>
{
  static bool special(T& t, const std::vector<std::string>& w) {
    if (w[0] == "clr") { t.clear(); return true; }
    return Full<T>::special(t, w);
  }
};

static void runScript(const std::string& mode, const Script& s)
{
  // first op:  hashes h1 h2 ...  (int tables)   or   keys <kind> k1 k2 ...  (string tables)
  const std::vector<std::string>& h = s[0];
  if (!g_Hash) { g_Hash = new unsigned[MaxKeys](); g_Keys = new std::string[8192]; }
  delete g_Index; g_Index = new std::map<std::string, int>();
  for (int i = 0; i < g_NKeys; ++i) std::string().swap(g_Keys[i]);
  if (h[0] == "hashseq") { // n keys, hash(k) = k * mul + add
    g_Span = atoi(h[1].c_str()) + 1;
    for (int i = 1; i < g_Span; ++i) g_Hash[i] = (unsigned)i * (unsigned)strtoul(h[2].c_str(), NULL, 10) + (unsigned)strtoul(h[3].c_str(), NULL, 10);
    runTables<Clearable<eni::HashTable<IntKey, Tracked, IntHasher> > >(s, 1, true);
    return;
  }
  if (h[0] == "hashes") {
    g_Span = h.size();
    for (size_t i = 1; i < h.size(); ++i) g_Hash[i] = (unsigned)strtoul(h[i].c_str(), NULL, 10);
    runTables<Clearable<eni::HashTable<IntKey, Tracked, IntHasher> > >(s, 1, true);
    return;
  }
  g_NKeys = h.size() - 1;
  g_Span = g_NKeys;
  for (size_t i = 2; i < h.size(); ++i) { g_Keys[i - 1] = bytesOf(h[i]); (*g_Index)[g_Keys[i - 1]] = i - 1; }
  const std::string& kind = h[1];
  using namespace eni::internal;
  if (kind == "sdbm") runTables<Clearable<eni::StringHashTable<Tracked, StringHasher<SDBM> > > >(s, 1, true);
  else if (kind == "elf") runTables<Clearable<eni::StringHashTable<Tracked> > >(s, 1, true);
  else if (kind == "bp") runTables<Clearable<eni::StringHashTable<int, StringHasher<BP> > > >(s, 1, false);
  else if (kind == "map") runTables<Map<Tracked> >(s, 1, true);
  else if (kind == "mapi") runTables<Map<int> >(s, 1, false);
  else if (kind == "mapc") runTables<Map<unsigned char> >(s, 1, false);
  else if (kind == "maps") runTables<Map<std::string> >(s, 1, false);
  else exit(3);
}

int main(int argc, char** argv) { return vf::run(argc, argv, runScript); }
