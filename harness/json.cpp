// JSON texts and values. Modes: "text" (parse a text at several places in memory), "api" (register machine on values).
#include "common.h"
#include <json/Parser.h>
#include <json/Value.h>
#include <json/Array.h>
#include <json/Object.h>
#include <diagnostic/Exception.h>
using namespace vf;
using json::Value; using json::Array; using json::Object;

static __thread bool g_Types = true; // every value answered its type queries consistently

static void tokens(const Value& v, int depth = 0)
{
  int n = v.isInteger() + v.isBoolean() + v.isString() + v.isObject() + v.isArray() + v.isUndefined();
  json::Type t = v.type();
  if (n != 1 || (t == json::INT) != v.isInteger() || (t == json::BOOL) != v.isBoolean() || (t == json::STRING) != v.isString() ||
      (t == json::OBJECT) != v.isObject() || (t == json::ARRAY) != v.isArray() || (t == json::UNDEF) != v.isUndefined())
    g_Types = false;
  switch (t) {
  case json::INT: { put("[\"int\","); putBytes(v.toInteger().str()); put("]"); break; }
  case json::BOOL: putf("[\"bool\",%d]", (int)v.toBoolean()); break;
  case json::STRING: put("[\"str\","); putBytes(v.toString()); put("]"); break;
  case json::ARRAY: {
    const Array& a = v.toArray();
    putf("[\"arr\",%d]", (int)a.size());
    if (a.type() != json::ARRAY || !a.isArray()) g_Types = false;
    size_t k = 0;
    for (Array::const_iterator i = a.begin(); i != a.end(); ++i, ++k) {
      put(",");
      if (&*i != &a[(int)k]) g_Types = false;
      tokens(*i, depth + 1);
    }
    if (k != a.size()) g_Types = false;
    break;
  }
  case json::OBJECT: {
    const Object& o = v.toObject();
    putf("[\"obj\",%d]", (int)o.size());
    if (o.type() != json::OBJECT || !o.isObject()) g_Types = false;
    size_t k = 0;
    for (Object::const_iterator i = o.begin(); i != o.end(); ++i, ++k) {
      put(",");
      put("[\"key\","); putBytes(i->key()); put("],");
      tokens(i->value(), depth + 1);
    }
    if (k != o.size()) g_Types = false;
    break;
  }
  case json::UNDEF: put("[\"undef\",0]"); break;
  default: put("[\"?\",0]"); g_Types = false;
  }
}

static void tree(const Value& v) { put("["); tokens(v); put("]"); }

static std::string text(const Value& v) { std::ostringstream o; v.print(o); return o.str(); }


// captures what tree() puts
static std::string treeText(const Value& v)
{
  flush();
  size_t mark = g_Len;
  tree(v);
  // only small trees stay in the buffer: larger ones are flushed and compared by their printed text instead
  std::string s(g_Buf + mark, g_Len - mark);
  g_Len = mark;
  return s;
}

static void parseEvent(const std::string& s)
{
  bool ok, same = true;
  std::string pr;
  // nested values are copied level by level: deep ones get more time and fewer repetitions
  int depth = 0, deepest = 0;
  for (size_t i = 0; i < s.size(); ++i) { depth += s[i] == '[' || s[i] == '{'; depth -= s[i] == ']' || s[i] == '}'; if (depth > deepest) deepest = depth; }
  const bool deep = deepest > 250;
  if (deep || s.size() > 3000) setTimer(60);
  {
    // the exact length, at the end of its allocation
    std::string a; a.reserve(s.size()); a.assign(s.data(), s.size());
    json::Parser p(a);
    ok = (bool)p;
    put("{\"op\":\"parse\",\"s\":"); putBytes(s); putf(",\"ok\":%d", (int)ok);
    g_Types = true;
    put(",\"tree\":");
    if (ok) tree(p.getRoot()); else put("[]");
    if (ok) pr = text(p.getRoot());
    put(",\"print\":"); putBytes(pr);
    put(",\"re\":");
    bool re = false;
    if (ok) {
      json::Parser q(pr);
      if (q) { tree(q.getRoot()); re = true; }
    }
    if (!re) put("[]");
    // the stack being dirty, other neighbours in memory, other capacity, a copied root, the same text once more
    char dirt[512]; memset(dirt, '"', sizeof dirt); asm volatile("" : : "r"(dirt) : "memory");
    const char* tails[] = { "rue alse }]\"", "\"0123456789abcdef", "]}]}]}", ",1,2,3]", "99999" };
    for (int i = 0; i < (deep ? 1 : 5); ++i) {
      std::string b(s); b += tails[i]; b.resize(s.size());  // what used to be behind the text
      b.reserve(b.size() + 64 + i);
      json::Parser q(b);
      if ((bool)q != ok) same = false;
      else if (ok) {
        Value root = q.getRoot();
        if (text(root) != pr || root.type() != p.getRoot().type()) same = false;
      }
    }
    json::Parser again(a);
    if ((bool)again != ok || (ok && text(again.getRoot()) != pr)) same = false;
    if (ok && text(p.getRoot()) != pr) same = false;
  }
  putf(",\"same\":%d,\"types\":%d}\n", (int)same, (int)g_Types);
}

// ------------------------------------------------------------------ register machine
enum { Regs = 6 };
static __thread Value* g_R[Regs];

static __thread json::Notation* g_N[Regs];   // a register holds a value or a plain notation
static const char* const g_NoteNames[] = { "undef", "int", "bool", "str", "obj", "arr" };
static const json::Type g_NoteTypes[] = { json::UNDEF, json::INT, json::BOOL, json::STRING, json::OBJECT, json::ARRAY };
static const char* noteName(const json::Notation& n)
{
  bool is[] = { n.isUndefined(), n.isInteger(), n.isBoolean(), n.isString(), n.isObject(), n.isArray() };
  const char* r = "?";
  for (int i = 0; i < 6; ++i) {
    if (is[i] != (n.type() == g_NoteTypes[i])) g_Types = false;
    if (is[i]) r = g_NoteNames[i];
  }
  return r;
}

// a location: register followed by /k<hex> (key) and /i<index> steps
static Value* locate(const std::string& w)
{
  size_t p = w.find('/');
  Value* v = g_R[atoi(w.substr(0, p).c_str())];
  while (p != std::string::npos) {
    size_t q = w.find('/', p + 1);
    std::string step = w.substr(p + 1, q == std::string::npos ? q : q - p - 1);
    if (step[0] == 'k') v = &v->asObject().at(bytesOf(step.substr(1)));
    else v = &v->asArray().at(atoi(step.substr(1).c_str()));
    p = q;
  }
  return v;
}

static void dumpAll()
{
  put(",\"regs\":[");
  for (int i = 0; i < Regs; ++i) {
    if (i) put(",");
    if (g_R[i]) tree(*g_R[i]); else if (g_N[i]) putf("[[\"note\",\"%s\"]]", noteName(*g_N[i])); else put("[[\"none\",0]]");
  }
  put("]");
}


static void putLoc(const std::string& w)
{
  size_t p = w.find('/');
  putf("[%d,[", atoi(w.substr(0, p).c_str()));
  bool first = true;
  while (p != std::string::npos) {
    size_t q = w.find('/', p + 1);
    std::string step = w.substr(p + 1, q == std::string::npos ? q : q - p - 1);
    if (!first) put(",");
    first = false;
    if (step[0] == 'k') { put("[\"k\","); putBytes(bytesOf(step.substr(1))); put("]"); }
    else putf("[\"i\",%d]", atoi(step.substr(1).c_str()));
    p = q;
  }
  put("]]");
}

static eni::s256 big(const std::string& t) { return eni::s256(t); }

// other parts read while a reference to one part is held
static void readOthers(const Value& v)
{
  (void)v[std::string("\x01 no such key")]; (void)v[std::string()];
  if (v.isObject()) {
    size_t n = 0;
    const Object& o = v.toObject();
    for (Object::const_iterator it = o.begin(); it != o.end() && n < 40; ++it, ++n) (void)v[it->key()];
  }
  else if (v.isArray())
    for (size_t i = 0; i < v.toArray().size() && i < 40; ++i) (void)v[(int)i];
  else (void)v[0];
}

static void api(const Script& s)
{
  for (int i = 0; i < Regs; ++i) { delete g_R[i]; g_R[i] = 0; delete g_N[i]; g_N[i] = 0; }
  for (size_t n = 0; n < s.size(); ++n) {
    const std::vector<std::string>& w = s[n];
    const std::string& op = w[0];
    std::string exc = "none";
    int r = -1;
    g_Types = true;
    put("{\"op\":\""); put(op.c_str()); put("\",\"a\":");
    if (w.size() > 1) putLoc(w[1]); else put("[0,[]]");
    put(",\"b\":");
    if (w.size() > 2 && w[2][0] == '@') putLoc(w[2].substr(1)); else put("[0,[]]");
    // remaining operands: bytes (x...), number (#...)
    put(",\"x\":");
    std::string xb; long num = 0;
    for (size_t i = 2; i < w.size(); ++i) {
      if (w[i][0] == 'x') xb = bytesOf(w[i].substr(1));
      if (w[i][0] == '#') num = atol(w[i].c_str() + 1);
    }
    putBytes(xb); putf(",\"n\":%ld", num);
    Value* A = 0; Value* B = 0;
    bool creates = op == "new" || op == "bool" || op == "int" || op == "cint" || op == "str" || op == "cstr" || op == "arr" || op == "obj" ||
                   op == "cpy" || op == "mov" || op == "note" || op == "nval" || op == "ncpy" || op == "nmov" || op == "oarr" || op == "oobj" || op == "txt";
    if (creates) r = atoi(w[1].c_str()); else if (w.size() > 1) A = locate(w[1]);
    json::Notation* NB = 0; json::Notation* mkN = 0;
    if (w.size() > 2 && w[2][0] == '@') { B = locate(w[2].substr(1)); NB = g_N[atoi(w[2].c_str() + 1)]; }
    Value* mk = 0;
    std::string obs = ",\"res\":[]";
    try {
      if (op == "new") mk = new Value();
      else if (op == "bool") mk = new Value(num != 0);
      else if (op == "int") mk = new Value(big(xb));
      else if (op == "cint") mk = new Value((int)num);
      else if (op == "str") mk = new Value(xb);
      else if (op == "cstr") mk = new Value(xb.c_str());
      else if (op == "arr") mk = new Value(Array());
      else if (op == "obj") mk = new Value(Object());
      else if (op == "cpy") mk = new Value(*B);
      else if (op == "mov") mk = new Value(std::move(*B));
      else if (op == "oarr") mk = new Value(B->toArray());
      else if (op == "oobj") mk = new Value(B->toObject());
      else if (op == "txt") { json::Parser p(xb); mk = (bool)p ? new Value(p.getRoot()) : new Value(); }
      else if (op == "del") { int i = atoi(w[1].c_str()); delete g_R[i]; g_R[i] = 0; delete g_N[i]; g_N[i] = 0; }
      else if (op == "note") mkN = (num == 0) ? new json::Notation() : new json::Notation(g_NoteTypes[num]);
      else if (op == "nval") mkN = new json::Notation(*B);
      else if (op == "ncpy") mkN = new json::Notation(*NB);
      else if (op == "nmov") mkN = new json::Notation(std::move(*NB));
      else if (op == "nasg") *g_N[atoi(w[1].c_str())] = *NB;
      else if (op == "nmasg") *g_N[atoi(w[1].c_str())] = std::move(*NB);
      else if (op == "asg") { Value& res = (*A = *B); if (&res != A) exc = "wrong reference returned"; }
      else if (op == "masg") *A = std::move(*B);
      else if (op == "put") { Value& d = A->asObject()[xb]; d = *B; }
      else if (op == "touch") (void)A->asObject()[xb];
      else if (op == "erase") { bool e = A->asObject().erase(xb); obs = std::string(",\"res\":[[\"bool\",") + (e ? "1]]" : "0]]"); }
      else if (op == "size") obs = ",\"res\":[[\"num\"," + std::to_string(A->isObject() ? A->toObject().size() : A->toArray().size()) + "]]";
      else if (op == "push") A->asArray().push_back(*B);
      else if (op == "emp") A->asArray().emplace_back(*B);
      else if (op == "ins") A->asArray().insert((size_t)num, *B);
      else if (op == "aera") A->asArray().erase((size_t)num);
      else if (op == "arsz") A->asArray().resize((size_t)num);
      else if (op == "pop") { Value x = A->asArray().pop_back(); obs = ",\"res\":" + treeText(x); }
      else if (op == "clr") A->asArray().clear();
      else if (op == "aasg") A->asArray() = B->toArray();
      else if (op == "oasg") A->asObject() = B->toObject();
      else if (op == "iset") A->asInteger() = big(xb);
      else if (op == "sset") A->asString() = xb;
      else if (op == "sapp") A->asString() += xb;
      else if (op == "dint") A->delegate(*new eni::s256(big(xb)));
      else if (op == "dobj") A->delegate(*new Object());
      else if (op == "darr") { Array* a = new Array(); a->push_back(Value((int)num)); A->delegate(*a); }
      else if (op == "rk") { const Value& x = (*A)[xb]; readOthers(*A); obs = ",\"res\":" + treeText(x); }
      else if (op == "rkc") { const Value& x = (*(const Value*)A)[xb.c_str()]; readOthers(*A); obs = ",\"res\":" + treeText(x); }
      else if (op == "ri") { const Value& x = (*A)[(int)num]; readOthers(*A); obs = ",\"res\":" + treeText(x); }
      else if (op == "ork") { const Object& o = A->toObject(); const Value& x = o[xb]; readOthers(*A); obs = ",\"res\":" + treeText(x); }
      else if (op == "ari") { const Array& o = A->toArray(); const Value& x = o[(int)num]; readOthers(*A); obs = ",\"res\":" + treeText(x); }
      else if (op == "print") {
        std::string t = text(*A);
        flush(); size_t mark = g_Len;
        putBytes(t);
        if (g_Len < mark) exc = "too long";
        obs = ",\"text\":" + std::string(g_Buf + mark, g_Len - mark);
        g_Len = mark;
        json::Parser p(t);
        obs += ",\"res\":" + std::string((bool)p ? treeText(p.getRoot()) : "[[\"unparsed\",0]]");
        if (text(*A) != t || text(Value(*A)) != t) exc = "printing is not repeatable";
      }
      else { fprintf(stderr, "unknown op %s\n", op.c_str()); exit(3); }
      if (mk || mkN) { delete g_R[r]; g_R[r] = mk; delete g_N[r]; g_N[r] = mkN; }
    }
    catch (eni::Exception<eni::InvalidDelegateAssigned, std::logic_error>&) { exc = "delegate"; }
    catch (eni::OutOfRange<eni::InvalidVectorIndex>&) { exc = "index"; }
    catch (eni::OutOfRange<eni::InvalidStringMapKey>&) { exc = "key"; }
    catch (std::exception& e) { exc = "other"; }
    put(",\"exc\":\""); put(exc.c_str()); put("\""); put(obs.data(), obs.size());
    dumpAll();
    putf(",\"types\":%d}\n", (int)g_Types);
  }
}

static void runScript(const std::string& mode, const Script& s)
{
  if (mode == "api") api(s);
  else for (size_t n = 0; n < s.size(); ++n) parseEvent(bytesOf(s[n][0]));
}
int main(int argc, char** argv)
{
  std::cerr.setstate(std::ios::failbit); // the parser reports errors there
  return vf::run(argc, argv, runScript);
}
