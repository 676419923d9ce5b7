// The operations shipped with the library, through their C entry points, and the primitives below them.
#include "common.h"
#include <eni.h>
#include <locale>
#include <thread>
#include <fcntl.h>
#include <sys/wait.h>
#ifdef VF_CRYPTO
#include "eni_crypto/eni_crypto.h"
#endif
#ifdef VF_SCRYPT
#include "eni_scrypt/scrypt.h"
#include "eni_scrypt/eni_scrypt.h"
#endif
using namespace vf;

typedef void* entry(char*);
#define OP(N) extern "C" uint64_t* N##_gas(char*); extern "C" char* N##_run(char*);
#ifdef VF_CRYPTO
OP(rsa_encrypt) OP(rsa_decrypt)
#endif
#ifdef VF_SCRYPT
OP(scrypt)
#endif
#ifdef VF_EXAMPLES
OP(reverse) OP(json)
#endif
// returns its arguments: shows the printed form of any value
class Echo : public eni::EniBase
{
public:
  Echo(const std::string& pArgs) : eni::EniBase(pArgs) { }
  ~Echo() { }
private:
  bool parse(const json::Array& pArgs) override { m_Vals = pArgs; return true; }
  eni::Gas gas() const override { return m_Vals.size(); }
  bool run(json::Array& pRet) override {
    const json::Array& a = m_Vals;
    for (json::Array::const_iterator i = a.begin(); i != a.end(); ++i) pRet.push_back(*i);
    return true;
  }
  json::Array m_Vals;
};
ENI_C_INTERFACE(echo, Echo)

template<class C> static eni::EniBase* make(const std::string& s) { return new C(s); }
struct Entry { const char* name; uint64_t* (*gas)(char*); char* (*run)(char*); eni::EniBase* (*object)(const std::string&); };
static const Entry entries[] = {
#ifdef VF_CRYPTO
  { "rsa_encrypt", rsa_encrypt_gas, rsa_encrypt_run, make<eni_crypto::RSAEncrypt> }, { "rsa_decrypt", rsa_decrypt_gas, rsa_decrypt_run, make<eni_crypto::RSADecrypt> },
#endif
#ifdef VF_SCRYPT
  { "scrypt", scrypt_gas, scrypt_run, make<Scrypt> },
#endif
#ifdef VF_EXAMPLES
  { "reverse", reverse_gas, reverse_run, NULL }, { "json", json_gas, json_run, NULL },
#endif
  { "echo", echo_gas, echo_run, make<Echo> },
  { NULL, NULL, NULL, NULL } };
static const Entry& entryOf(const std::string& name)
{
  for (const Entry* e = entries; e->name; ++e) if (name == e->name) return *e;
  exit(3);
}

struct Answer { uint64_t gas; bool has; std::string res; };
// order: g gas only, r run only, b gas then run, c run then gas, by the C functions;
// o gas run gas, p run gas gas, q gas gas run, of one object: the gas has to stay what it is
static Answer call(const std::string& name, const std::string& text, char order)
{
  const Entry& e = entryOf(name);
  Answer a; a.gas = 0; a.has = false;
  if (order >= 'o' && order <= 'q' && !e.object) order = 'b' + order % 2;
  if (order >= 'o' && order <= 'q') {
    eni::EniBase* o = e.object(text.c_str());
    uint64_t g[2]; int n = 0;
    for (const char* p = order == 'o' ? "grg" : order == 'p' ? "rgg" : "ggr"; *p; ++p) {
      if (*p == 'g') g[n++] = o->getGas();
      else { char* r = o->start(); if (r) { a.has = true; a.res = r; free(r); } }
    }
    delete o;
    a.gas = g[0] == g[1] ? g[0] : UINT64_MAX;
    return a;
  }
  for (int k = 0; k < 2; ++k) {
    bool gas = (k == 0) == (order == 'b' || order == 'g');
    if ((order == 'g' && k) || (order == 'r' && k)) continue;
    char* arg = (char*)malloc(text.size() + 1);
    memcpy(arg, text.c_str(), text.size() + 1);
    if (gas) { uint64_t* g = e.gas(arg); a.gas = *g; free(g); }
    else { char* r = e.run(arg); if (r) { a.has = true; a.res = r; free(r); } }
    free(arg);
  }
  return a;
}
static void answer(const Answer& a)
{
  put(",\"gas\":"); putBytes(std::to_string((unsigned long long)a.gas));
  putf(",\"has\":%d,\"res\":", (int)a.has); putBytes(a.res);
}
static void head(const std::string& name, const std::string& text)
{
  putf(",\"name\":\"%s\",\"text\":", name.c_str()); putBytes(text);
}
static bool all(int fd, void* p, size_t n, bool wr)
{
  char* c = (char*)p;
  while (n) {
    ssize_t k = wr ? ::write(fd, c, n) : ::read(fd, c, n);
    if (k <= 0) return false;
    c += k; n -= k;
  }
  return true;
}
// in a process of its own: without a terminal, with its own standard input
static void callForked(const std::string& name, const std::string& text, const std::string& input, char order)
{
  int fd[2], in[2];
  if (pipe(fd) || pipe(in)) exit(3);
  pid_t p = fork();
  if (p < 0) exit(3);
  if (p == 0) {
    close(fd[0]); close(in[1]);
    dup2(in[0], 0);
    setsid();
    int null = open("/dev/null", O_WRONLY); dup2(null, 2);
    signal(SIGPROF, SIG_DFL); signal(SIGALRM, SIG_DFL);
    alarm(20); setTimer(10);
    Answer a = call(name, text, order);
    uint64_t len = a.res.size(), has = a.has;
    all(fd[1], &a.gas, 8, true); all(fd[1], &has, 8, true); all(fd[1], &len, 8, true); all(fd[1], &a.res[0], len, true);
    _exit(0);
  }
  close(fd[1]); close(in[0]);
  signal(SIGPIPE, SIG_IGN);
  if (!input.empty()) all(in[1], (void*)input.data(), input.size(), true);
  close(in[1]);
  Answer a; a.gas = 0; a.has = false;
  uint64_t len = 0, has = 0;
  if (all(fd[0], &a.gas, 8, false) && all(fd[0], &has, 8, false) && all(fd[0], &len, 8, false)) {
    a.res.resize(len); a.has = has;
    if (len) all(fd[0], &a.res[0], len, false);
  }
  close(fd[0]);
  int st = 0;
  waitpid(p, &st, 0);
  putf(",\"st\":%d", WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st));
  answer(a);
}

#ifdef VF_ASAN
static char* exact(const std::string& s, size_t shift) { char* p = (char*)malloc(s.size() + shift); memcpy(p + shift, s.data(), s.size()); return p; }
#else
static char* exact(const std::string& s, size_t shift) { char* p = (char*)malloc(s.size() + shift + 1); memcpy(p + shift, s.data(), s.size()); return p; }
#endif

struct Grouping : std::numpunct<char> {
  char do_thousands_sep() const override { return '.'; }
  char do_decimal_point() const override { return ','; }
  std::string do_grouping() const override { return "\3"; }
  std::string do_truename() const override { return "wahr"; }
  std::string do_falsename() const override { return "falsch"; }
};

static void runScript(const std::string& mode, const Script& s)
{
  for (size_t n = 0; n < s.size(); ++n) {
    const std::vector<std::string>& w = s[n];
    const std::string& op = w[0];
    if (op == "locale") { std::locale::global(std::locale(std::locale(), new Grouping)); setlocale(LC_ALL, ""); continue; }
    if (op == "heap") { // another layout of the heap
      for (int i = 0, k = atoi(w[1].c_str()); i < k; ++i) { volatile char* p = (char*)malloc(17 * (i % 97) + 1); p[0] = 1; if (i % 3) free((void*)p); }
      continue;
    }
    putf("{\"op\":\"%s\"", op.c_str());
    if (op == "call" || op == "fuzz") { // name text [input [order]]
      std::string t = bytesOf(w[2]);
      head(w[1], t);
      callForked(w[1], t, w.size() > 3 ? bytesOf(w[3]) : std::string("abcd\n"), w.size() > 4 ? w[4][0] : 'b');
    }
    else if (op == "here") { // name text [order]
      std::string t = bytesOf(w[2]);
      head(w[1], t);
      put(",\"st\":0"); answer(call(w[1], t, w.size() > 3 ? w[3][0] : 'b'));
    }
    else if (op == "threads") { // count name text name text ...: every thread makes every call
      size_t k = atoi(w[1].c_str()), calls = (w.size() - 2) / 2;
      std::vector<std::string> texts;
      for (size_t i = 0; i < calls; ++i) texts.push_back(bytesOf(w[3 + 2 * i]));
      std::vector<std::vector<Answer> > got(k, std::vector<Answer>(calls));
      std::vector<std::thread> ts;
      for (size_t t = 0; t < k; ++t)
        ts.push_back(std::thread([&, t] { for (size_t i = 0; i < calls; ++i) { size_t j = (i + t) % calls; got[t][j] = call(w[2 + 2 * j], texts[j], "bcopq"[t % 5]); } }));
      for (size_t t = 0; t < k; ++t) ts[t].join();
      put(",\"got\":[");
      for (size_t t = 0; t < k; ++t)
        for (size_t i = 0; i < calls; ++i) {
          putf("%s{\"thread\":%d", t + i ? "," : "", (int)t);
          head(w[2 + 2 * i], texts[i]); answer(got[t][i]); put("}");
        }
      put("]");
    }
    else if (op == "many") { // rounds name text name text ...: one after another, the answers that differ from the last ones
      size_t rounds = atoi(w[1].c_str()), calls = (w.size() - 2) / 2;
      std::vector<std::string> texts;
      for (size_t i = 0; i < calls; ++i) texts.push_back(bytesOf(w[3 + 2 * i]));
      std::vector<Answer> last(calls);
      bool first = true;
      size_t shown = 0;
      put(",\"got\":[");
      for (size_t k = 0; k < rounds; ++k)
        for (size_t i = 0; i < calls; ++i) {
          Answer a = call(w[2 + 2 * i], texts[i], "bcopq"[(k + i) % 5]);
          bool same = k && a.gas == last[i].gas && a.has == last[i].has && a.res == last[i].res;
          if (same && k + 1 < rounds) continue;
          if (++shown > 40 && k + 1 < rounds) continue;
          putf("%s{\"round\":%d", first ? "" : ",", (int)k); first = false;
          head(w[2 + 2 * i], texts[i]); answer(a); put("}");
          last[i] = a;
        }
      put("]");
    }
#ifdef VF_CRYPTO
    else if (op == "enc" || op == "dec") {
      std::string in = bytesOf(w[1]), out = "junk";
      bool ok = op == "enc" ? eni_crypto::str2hex(in, out) : eni_crypto::hex2str(in, out);
      put(",\"in\":"); putBytes(in);
      putf(",\"ok\":%d,\"out\":", (int)ok); putBytes(ok ? out : std::string());
    }
    else if (op == "key") { // kind pem: can it be read?
      std::string pem = bytesOf(w[2]);
      RSA* k = w[1] == "pub" ? eni_crypto::rsa::create_pubkey(pem) : eni_crypto::rsa::create_privkey(pem);
      putf(",\"kind\":\"%s\",\"ok\":%d,\"pem\":", w[1].c_str(), k != NULL); putBytes(pem);
      eni_crypto::rsa::destroy(k);
      putf(",\"gone\":%d", k == NULL);
    }
    else if (op == "rsa") { // function index-of-key pem message
      std::string pem = bytesOf(w[3]), msg = bytesOf(w[4]), res = "junk";
      bool pub = w[1].compare(0, 3, "pub") == 0;
      RSA* k = pub ? eni_crypto::rsa::create_pubkey(pem) : eni_crypto::rsa::create_privkey(pem);
      bool ok = false;
      if (k) {
        ok = w[1] == "pubenc" ? eni_crypto::rsa::pub_encrypt(*k, msg, res) : w[1] == "pubdec" ? eni_crypto::rsa::pub_decrypt(*k, msg, res)
           : w[1] == "privenc" ? eni_crypto::rsa::priv_encrypt(*k, msg, res) : eni_crypto::rsa::priv_decrypt(*k, msg, res);
      }
      putf(",\"fn\":\"%s\",\"k\":%s,\"msg\":", w[1].c_str(), w[2].c_str()); putBytes(msg);
      putf(",\"key\":%d,\"ok\":%d,\"res\":", k != NULL, (int)ok); putBytes(ok ? res : std::string());
      eni_crypto::rsa::destroy(k);
    }
#endif
#ifdef VF_SCRYPT
    else if (op == "pbk") { // password salt count length shift
      std::string pw = bytesOf(w[1]), salt = bytesOf(w[2]);
      size_t len = atoi(w[4].c_str()), sh = atoi(w[5].c_str());
      char* p = exact(pw, sh); char* q = exact(salt, sh);
      char* out = exact(std::string(len + 16, '\x5a'), sh);
      char* tight = exact(std::string(len, '\x5a'), sh);
      PBKDF2_SHA256((uint8_t*)p + sh, pw.size(), (uint8_t*)q + sh, salt.size(), atoi(w[3].c_str()), (uint8_t*)out + sh, len);
      PBKDF2_SHA256((uint8_t*)p + sh, pw.size(), (uint8_t*)q + sh, salt.size(), atoi(w[3].c_str()), (uint8_t*)tight + sh, len);
      put(",\"pw\":"); putBytes(pw); put(",\"salt\":"); putBytes(salt);
      putf(",\"c\":%d,\"len\":%d,\"out\":", atoi(w[3].c_str()), (int)len); putBytes(out + sh, len + 16);
      put(",\"tight\":"); putBytes(tight + sh, len);
      putf(",\"kept\":%d", (int)(pw.compare(0, std::string::npos, p + sh, pw.size()) == 0 && salt.compare(0, std::string::npos, q + sh, salt.size()) == 0));
      free(p); free(q); free(out); free(tight);
    }
    else if (op == "scr") { // input form shift-in shift-out shift-scratch
      std::string in = bytesOf(w[1]);
      size_t a = atoi(w[3].c_str()), b = atoi(w[4].c_str()), c = atoi(w[5].c_str());
      char* i = exact(in, a); char* o = exact(std::string(32, '\x5a'), b);
      char* pad = exact(std::string(SCRYPT_SCRATCHPAD_SIZE, '\x5a'), c);
      if (w[2] == "own") scrypt_1024_1_1_256(i + a, o + b);
      else if (w[2] == "pad") scrypt_1024_1_1_256_sp(i + a, o + b, pad + c);
      else scrypt_1024_1_1_256_sp_generic(i + a, o + b, pad + c);
      put(",\"in\":"); putBytes(in); put(",\"out\":"); putBytes(o + b, 32);
      putf(",\"kept\":%d", (int)(in.compare(0, std::string::npos, i + a, in.size()) == 0));
      free(i); free(o); free(pad);
    }
    else if (op == "le") { // the two little-endian helpers of the public header
      uint32_t x = strtoul(w[1].c_str(), NULL, 10);
      char* p = exact(std::string(4, '\x5a'), atoi(w[2].c_str()));
      le32enc(p + atoi(w[2].c_str()), x);
      put(",\"out\":"); putBytes(p + atoi(w[2].c_str()), 4);
      putf(",\"same\":%d", (int)(le32dec(p + atoi(w[2].c_str())) == x));
      free(p);
    }
#endif
    else exit(3);
    put("}\n");
  }
}
int main(int argc, char** argv) { return vf::run(argc, argv, runScript, 60); }
