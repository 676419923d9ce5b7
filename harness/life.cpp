// Lives of operation objects. A programmable operation records the calls into its own code.
#include "common.h"
#include <eni.h>
#include <json/Parser.h>
#include <json/Object.h>
#include <sys/wait.h>
#include <memory>
using namespace vf;
using json::Value; using json::Array; using json::Object;

static void tokens(const Value& v)
{
  if (v.isInteger()) { put("[\"int\","); putBytes(v.toInteger().str()); put("]"); }
  else if (v.isBoolean()) putf("[\"bool\",%d]", (int)v.toBoolean());
  else if (v.isString()) { put("[\"str\","); putBytes(v.toString()); put("]"); }
  else if (v.isArray()) {
    putf("[\"arr\",%d]", (int)v.toArray().size());
    for (Array::const_iterator i = v.toArray().begin(); i != v.toArray().end(); ++i) { put(","); tokens(*i); }
  }
  else if (v.isObject()) {
    putf("[\"obj\",%d]", (int)v.toObject().size());
    for (Object::const_iterator i = v.toObject().begin(); i != v.toObject().end(); ++i) {
      put(",[\"key\","); putBytes(i->key()); put("],"); tokens(i->value());
    }
  }
  else put("[\"undef\",0]");
}

struct Plan { bool check, run; eni::Gas gas; std::string vals; };
static thread_local Plan g_Plan;           // of the next object
static thread_local std::string g_Calls;   // into operation code since the last event
static thread_local std::unique_ptr<Value> g_Args;
static thread_local int g_Dtor = 0;

class Programmable : public eni::EniBase
{
public:
  Programmable(const std::string& pArgs) : eni::EniBase(pArgs), m_Plan(g_Plan) { }
  ~Programmable() { ++g_Dtor; }
private:
  bool parse(const Array& pArgs) override { g_Calls += 'p'; g_Args.reset(new Value(pArgs)); return m_Plan.check; }
  eni::Gas gas() const override { g_Calls += 'g'; return m_Plan.gas; }
  bool run(Array& pRet) override {
    g_Calls += 'r';
    json::Parser p(m_Plan.vals);
    const Array& vals = p.getRoot().toArray();
    for (Array::const_iterator i = vals.begin(); i != vals.end(); ++i) pRet.push_back(*i);
    return m_Plan.run;
  }
  Plan m_Plan;
};
ENI_C_INTERFACE(programmable, Programmable)

static void calls()
{
  put(",\"calls\":[");
  for (size_t i = 0; i < g_Calls.size(); ++i) putf("%s\"%c\"", i ? "," : "", g_Calls[i]);
  put("],\"args\":[");
  if (g_Args) tokens(*g_Args);
  put("]");
  g_Calls.clear(); g_Args.reset();
}
static void result(char* r)
{
  putf(",\"has\":%d,\"res\":", r != NULL);
  putBytes(r ? std::string(r) : std::string());
  free(r);
}
static void readPlan(const std::vector<std::string>& w, size_t at)
{
  g_Plan.check = w[at] == "1"; g_Plan.gas = strtoull(w[at + 1].c_str(), NULL, 10);
  g_Plan.run = w[at + 2] == "1"; g_Plan.vals = bytesOf(w[at + 3]);
  putf(",\"check\":%d,\"run\":%d,\"gas\":", (int)g_Plan.check, (int)g_Plan.run);
  putBytes(std::to_string((unsigned long long)g_Plan.gas));
  put(",\"vals\":"); putBytes(g_Plan.vals);
}

static void runScript(const std::string& mode, const Script& s)
{
  eni::EniBase* obj[5];
  memset(obj, 0, sizeof obj);
  g_Calls.clear(); g_Args.reset(); g_Dtor = 0;
  for (size_t n = 0; n < s.size(); ++n) {
    const std::vector<std::string>& w = s[n];
    const std::string& op = w[0];
    putf("{\"op\":\"%s\"", op.c_str());
    if (op == "new") {
      int o = atoi(w[1].c_str());
      std::string t = bytesOf(w[2]);
      putf(",\"o\":%d,\"text\":", o); putBytes(t);
      readPlan(w, 3);
      obj[o] = new Programmable(t);
      calls();
    }
    else if (op == "gas" || op == "run") {
      int o = atoi(w[1].c_str());
      putf(",\"o\":%d", o);
      if (op == "gas") { put(",\"ret\":"); putBytes(std::to_string((unsigned long long)obj[o]->getGas())); }
      else result(obj[o]->start());
      calls();
    }
    else if (op == "del") {
      int o = atoi(w[1].c_str());
      g_Dtor = 0;
      delete obj[o]; obj[o] = NULL;
      putf(",\"o\":%d,\"dtor\":%d", o, g_Dtor);
      calls();
    }
    else if (op == "cgas" || op == "crun") {
      std::string t = bytesOf(w[1]);
      put(",\"text\":"); putBytes(t);
      readPlan(w, 2);
      char* arg = strdup(t.c_str());
      g_Dtor = 0;
      if (op == "cgas") {
        uint64_t* g = programmable_gas(arg);
        put(",\"ret\":"); putBytes(std::to_string((unsigned long long)*g));
        free(g);
      }
      else result(programmable_run(arg));
      putf(",\"dtor\":%d", g_Dtor);
      if (t != arg) put(",\"changed\":1");
      free(arg);
      calls();
    }
    else if (op == "xnew") {
      std::string t = bytesOf(w[1]);
      put(",\"text\":"); putBytes(t);
      char* arg = strdup(t.c_str());
      g_Plan = Plan();
      pid_t p = fork();
      if (p == 0) {
        setTimer(10);
        if (w[2] == "n") { eni::EniBase* b = new Programmable(t); delete b; }
        else if (w[2] == "g") free(programmable_gas(arg));
        else free(programmable_run(arg));
        _exit(0);
      }
      int st = 0;
      waitpid(p, &st, 0);
      free(arg);
      putf(",\"st\":%d", WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st));
      g_Calls.clear(); g_Args.reset();
    }
    else exit(3);
    put("}\n");
  }
  for (int i = 0; i < 5; ++i) delete obj[i];
}
int main(int argc, char** argv) { return vf::run(argc, argv, runScript); }
