// The integer types of ENI: one register machine per type.
#include "common.h"
#include <eni_types.h>
#include <json/Parser.h>
#include <json/Value.h>
#include <json/Array.h>
using namespace vf;

template<class T> struct Only { // what one kind of type has and the other has not
  static bool bits(const std::string& op, T& r, const T& a, const T& b, unsigned n) {
    if (op == "and") r = a & b;
    else if (op == "or") r = a | b;
    else if (op == "xor") r = a ^ b;
    else if (op == "not") r = ~a;
    else if (op == "shl") r = a << n;
    else if (op == "shr") r = a >> n;
    else return false;
    return true;
  }
  static void json(const T&) { }
};
template<> struct Only<eni::s256> {
  typedef eni::s256 T;
  static bool bits(const std::string&, T&, const T&, const T&, unsigned) { return false; }
  static void json(const T& v) {
    // the value printed, and the printed text read again and printed
    std::ostringstream o, p;
    json::Value(v).print(o);
    put(",\"value\":"); putBytes(o.str());
    std::string text = o.str();
    json::Parser q(" " + text + "\n");
    if (q && q.getRoot().isInteger() && q.getRoot().toInteger() == v) q.getRoot().print(p);
    put(",\"json\":"); putBytes(p.str());
  }
};

template<class T> static void machine(const Script& s)
{
  T r[5];
  for (size_t n = 1; n < s.size(); ++n) {
    const std::vector<std::string>& w = s[n];
    const std::string& op = w[0];
    if (op == "bool") {
      bool v = w[1] == "1";
      std::ostringstream o; json::Value(v).print(o);
      putf("{\"op\":\"bool\",\"d\":%d,\"str\":", (int)v); putBytes(eni::to_string(v));
      put(",\"value\":"); putBytes(o.str()); put("}\n");
      continue;
    }
    if (op == "vint") {
      std::string t = bytesOf(w[1]);
      json::Value v((int)strtol(t.c_str(), 0, 10));
      std::ostringstream o; v.print(o);
      put("{\"op\":\"vint\",\"d\":1,\"s\":"); putBytes(t); put(",\"str\":"); putBytes(o.str()); put(",\"value\":");
      putBytes(eni::to_string(v.toInteger())); put("}\n");
      continue;
    }
    int d = atoi(w[1].c_str()), a = 0, b = 0; unsigned k = 0;
    putf("{\"op\":\"%s\",\"d\":%d", op.c_str(), d);
    if (op == "set") {
      std::string t = bytesOf(w[2]);
      put(",\"s\":"); putBytes(t);
      if (w[3] == "1") r[d] = T(t); else if (w[3] == "2") r[d].assign(t);
      else r[d] = t.size() && t[0] == '-' ? T(strtoll(t.c_str(), 0, 10)) : T((unsigned long long)strtoull(t.c_str(), 0, 10));
    }
    else {
      a = atoi(w[2].c_str()); b = atoi(w[3].c_str()); k = atoi(w[4].c_str());
      putf(",\"a\":%d,\"b\":%d,\"n\":%u", a, b, k);
      if (op == "cmp") {
        int c = r[a] < r[b] ? -1 : r[a] > r[b] ? 1 : 0;
        if ((r[a] == r[b]) != (c == 0) || (r[a] != r[b]) != (c != 0) || (r[a] <= r[b]) != (c <= 0) || (r[a] >= r[b]) != (c >= 0) ||
            (r[a].is_zero()) != (r[a] == T(0))) c = 9;
        putf(",\"ret\":%d", c);
      }
      else if (op == "add") { if (k & 1) r[d] = r[a] + r[b]; else { T x = r[a]; x += r[b]; r[d] = x; } }
      else if (op == "sub") { if (k & 1) r[d] = r[a] - r[b]; else { T x = r[a]; x -= r[b]; r[d] = x; } }
      else if (op == "mul") { if (k & 1) r[d] = r[a] * r[b]; else { T x = r[a]; x *= r[b]; r[d] = x; } }
      else if (op == "div") r[d] = r[a] / r[b];
      else if (op == "mod") r[d] = r[a] % r[b];
      else if (op == "neg") r[d] = T(0) - r[a];
      else if (op == "inc") { r[d] = r[a]; if (k & 1) ++r[d]; else r[d]++; }
      else if (op == "dec") { r[d] = r[a]; if (k & 1) --r[d]; else r[d]--; }
      else if (!Only<T>::bits(op, r[d], r[a], r[b], k)) exit(3);
    }
    put(",\"str\":"); putBytes(eni::to_string(r[d]));
    Only<T>::json(r[d]);
    put("}\n");
  }
}

static void runScript(const std::string& mode, const Script& s)
{
  const std::string& t = s[0][0];
  if (t == "u64") machine<eni::u64>(s);
  else if (t == "u128") machine<eni::u128>(s);
  else if (t == "u160") machine<eni::Address>(s);
  else if (t == "u256") machine<eni::UInt>(s);
  else if (t == "s256") machine<eni::Int>(s);
  else exit(3);
}
int main(int argc, char** argv) { return vf::run(argc, argv, runScript); }
