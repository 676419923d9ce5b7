// Exceptions of the diagnostics: histories of objects and captured exceptions, and the places that raise them.
#include "common.h"
#include <algorithm>
#include <exception>
#include <memory>
#include <new>
#include <thread>
#include <typeinfo>
#include <diagnostic/Exception.h>
#include <adt/StringHasher.h>
#include <adt/StringMap.h>
#include <adt/StringHashTable.h>
#include <adt/Vector.h>
#include <json/Array.h>
#include <json/Object.h>
#include <json/Value.h>

using namespace eni;
using vf::put;

#define IDS(X) X(Unknown) X(Unimplemented) X(NoMemory) X(InvalidDelegateAssigned) X(InvalidIteratorEmpty) \
  X(InvalidStringMapKey) X(InvalidVectorIndex) X(InvalidVectorSize)

struct Holder {
  virtual ~Holder() {}
  virtual void raise() const = 0;
  virtual Holder* copy() const = 0;
  virtual Holder* moved() = 0;
  virtual bool assign(Holder* o) = 0;
  virtual const char* direct() const = 0;
};
template<class E> struct Of : Holder {
  E e;
  Of() {}
  Of(const E& x) : e(x) {}
  Of(E&& x) : e(std::move(x)) {}
  void raise() const { throw e; }
  Holder* copy() const { return new Of<E>(e); }
  Holder* moved() { return new Of<E>(std::move(e)); }
  bool assign(Holder* o) { Of<E>* p = dynamic_cast<Of<E>*>(o); if (p) e = p->e; return p != 0; }
  const char* direct() const { return e.what(); }
};
struct Captured : Holder {
  std::exception_ptr p;
  Captured(std::exception_ptr x) : p(x) {}
  void raise() const { std::rethrow_exception(p); }
  Holder* copy() const { return new Captured(p); }
  Holder* moved() { return new Captured(std::move(p)); }
  bool assign(Holder* o) { Captured* c = dynamic_cast<Captured*>(o); if (c) p = c->p; return c != 0; }
  const char* direct() const { try { raise(); } catch (std::exception& e) { return e.what(); } return "(none)"; }   // p keeps the object alive
};

template<DiagID ID> Holder* make(const std::string& k)
{
  if (k == "exception") return new Of<Exception<ID> >();
  if (k == "bad_alloc") return new Of<BadAlloc<ID> >();
  if (k == "bad_cast") return new Of<Exception<ID, std::bad_cast> >();
  if (k == "logic_error") return new Of<LogicError<ID> >();
  if (k == "length_error") return new Of<LengthError<ID> >();
  return new Of<OutOfRange<ID> >();
}

template<class T> bool caught(const Holder* h)
{
  try { h->raise(); } catch (const T&) { return true; } catch (...) {}
  return false;
}

static __thread bool g_First;
static void item(const std::string& s) { put(g_First ? "" : ","); g_First = false; put(s.c_str()); }
template<DiagID ID> void owns(const Holder* h, const char* n)
{
  std::string q = std::string("[\"") + n + "\",\"";
  if (caught<Exception<ID, std::exception> >(h)) item(q + "exception\"]");
  if (caught<BadAlloc<ID> >(h)) item(q + "bad_alloc\"]");
  if (caught<Exception<ID, std::bad_cast> >(h)) item(q + "bad_cast\"]");
  if (caught<LogicError<ID> >(h)) item(q + "logic_error\"]");
  if (caught<LengthError<ID> >(h)) item(q + "length_error\"]");
  if (caught<OutOfRange<ID> >(h)) item(q + "out_of_range\"]");
}

// d: the message, asked for before the messages of the other slots and read after that
static void show(const Holder* h, const char* d)
{
  if (!h) { put("{\"what\":\"\",\"direct\":\"\",\"std\":[],\"own\":[]}"); return; }
  std::string w = "(not a standard exception)";
  try { h->raise(); } catch (const std::exception& e) { w = e.what() ? e.what() : "(null)"; } catch (...) {}
  put("{\"what\":\""); put(w.c_str());
  put("\",\"direct\":\""); put(d ? d : "(null)"); put("\",\"std\":[");
  g_First = true;
  if (caught<std::exception>(h)) item("\"exception\"");
  if (caught<std::bad_alloc>(h)) item("\"bad_alloc\"");
  if (caught<std::bad_cast>(h)) item("\"bad_cast\"");
  if (caught<std::logic_error>(h)) item("\"logic_error\"");
  if (caught<std::length_error>(h)) item("\"length_error\"");
  if (caught<std::out_of_range>(h)) item("\"out_of_range\"");
  if (caught<std::invalid_argument>(h)) item("\"invalid_argument\"");
  if (caught<std::domain_error>(h)) item("\"domain_error\"");
  if (caught<std::runtime_error>(h)) item("\"runtime_error\"");
  put("],\"own\":[");
  g_First = true;
#define X(ID) owns<ID>(h, #ID);
  IDS(X)
#undef X
  put("]}");
}

static Holder* captured(const Holder* h)
{
  try { h->raise(); } catch (...) { return new Captured(std::current_exception()); }
  return 0;
}

static void site(const std::string& s)
{
  Vector<int> v;
  int x[] = { 1, 2, 3 };
  v.assign(Vector<int>::const_iterator(x), Vector<int>::const_iterator(x + 3));
  const Vector<int>& cv = v;
  StringMap<int> m;
  const StringMap<int>& cm = m;
  json::Array a;
  const json::Array& ca = a;
  json::Object o;
  const json::Object& co = o;
  s256 n = 1;
  if (s == "vec_at") v.at(3);
  else if (s == "vec_cat") cv.at((size_t)-1);
  else if (s == "vec_ins") v.insert((size_t)4, 7);
  else if (s == "vec_insn") v.insert((size_t)4, (size_t)2, 7);
  else if (s == "vec_insr") v.insert((size_t)5, Vector<int>::const_iterator(x), Vector<int>::const_iterator(x + 2));
  else if (s == "vec_insl") v.insert((size_t)4, { 1, 2 });
  else if (s == "vec_er") v.erase((size_t)3);
  else if (s == "vec_er2") v.erase((size_t)1, (size_t)4);
  else if (s == "vec_erempty") v.erase((size_t)2, (size_t)2);
  else if (s == "vec_res") v.reserve(v.max_size() + 1);
  else if (s == "vec_rsz") v.resize((size_t)-1);
  else if (s == "vec_insmax") v.insert((size_t)1, v.max_size(), 7);
  else if (s == "vec_nomem") v.reserve(v.max_size());
  else if (s == "map_at") m.at("x");
  else if (s == "map_cat") { m["y"] = 1; cm.at("x"); }
  else if (s == "json_idx") a.at(0);
  else if (s == "json_cidx") { a.emplace_back("s"); ca.at(1); }
  else if (s == "json_key") o.at("k");
  else if (s == "json_ckey") co.at("k");
  else if (s == "it_val") m.end()->value();
  else if (s == "it_key") m.end()->key();
  else if (s == "it_arrow") (*m.end()).value();
  else if (s == "it_pre") { StringMap<int>::iterator i = m.end(); ++i; }
  else if (s == "it_post") { StringMap<int>::iterator i = m.end(); i++; }
  else if (s == "cit_val") cm.end()->value();
  else if (s == "cit_arrow") (*cm.end()).value();
  else if (s == "cit_pre") { StringMap<int>::const_iterator i = cm.end(); ++i; }
  else if (s == "cit_post") { StringMap<int>::const_iterator i = cm.end(); i++; }
  else if (s == "del_int") { json::Value w("s"); w.delegate(n); }
  else if (s == "del_obj") { json::Value w(true); w.delegate(o); }
  else if (s == "del_arr") { json::Value w; w.delegate(*new json::Array()); w.delegate(a); }
  else if (s == "hasher") internal::StringHasher<0xffff>()("x");
}

static void runScript(const std::string&, const vf::Script& sc)
{
  Holder* h[4] = { 0, 0, 0, 0 };
  for (size_t k = 0; k < sc.size(); ++k) {
    const std::vector<std::string>& w = sc[k];
    std::string op = w[0], id = w.size() > 3 ? w[3] : "", kind = w.size() > 4 ? w[4] : "";
    int d = atoi(w[1].c_str()), a = atoi(w[2].c_str());
    vf::putf("{\"op\":\"%s\",\"d\":%d,\"a\":%d,\"id\":\"%s\",\"kind\":\"%s\"", op.c_str(), d, a, id.c_str(), kind.c_str());
    vf::flush();
    Holder*& p = h[d - 1];
    Holder* q = h[a - 1];
    Holder* r = 0;
    if (op == "make") {
#define X(ID) if (id == #ID) r = make<ID>(kind);
      IDS(X)
#undef X
    }
    else if (op == "copy") r = q->copy();
    else if (op == "move") { r = q->moved(); delete h[a - 1]; h[a - 1] = 0; }
    else if (op == "cap") r = captured(q);
    else if (op == "thr") { std::thread t([&]() { r = captured(q); }); t.join(); }
    else if (op == "base") {
      try { try { try { q->raise(); } catch (const std::exception& e) { throw; } } catch (...) { throw; } }
      catch (...) { r = new Captured(std::current_exception()); }
    }
    else if (op == "nest") {
      try { throw OutOfRange<InvalidVectorIndex>(); }
      catch (std::exception&) {
        try { q->raise(); } catch (...) { r = new Captured(std::current_exception()); }
      }
    }
    else if (op == "asg") { if (!p->assign(q)) r = q->copy(); else r = 0; }
    else if (op == "site") {
      try { site(id); } catch (...) { r = new Captured(std::current_exception()); }
    }
    if (op != "asg" || r) { delete p; p = r; }
    vf::put(",\"slots\":[");
    const char* text[4];
    for (int i = 0; i < 4; ++i) text[i] = h[i] ? h[i]->direct() : 0;
    std::string kept[4];
    for (int i = 0; i < 4; ++i) if (h[i]) kept[i] = text[i] ? text[i] : "(null)";
    for (int i = 0; i < 4; ++i) { vf::put(i ? "," : ""); show(h[i], kept[i].c_str()); }
    vf::put("]}\n");
  }
  for (int i = 0; i < 4; ++i) delete h[i];
}

int main(int argc, char** argv) { return vf::run(argc, argv, runScript); }
