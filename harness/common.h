// Shared by the harness drivers: script input, event output, crash and hang handling.
// A harness is called as  <binary> <mode> <file>;  every line of the file is "<id> TAB <script>".
// Output: "B <id>", one JSON event per call, "E", and "DONE" at the very end.
// Exit codes: 0 done, 42 hang (CPU time limit of one script), 43 AddressSanitizer report, 3 usage error.
#ifndef VF_COMMON_H
#define VF_COMMON_H
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <signal.h>
#include <sstream>
#include <string>
#include <sys/time.h>
#include <thread>
#include <unistd.h>
#include <vector>
#if defined(__SANITIZE_ADDRESS__)
#define VF_ASAN 1
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
extern "C" void __sanitizer_set_death_callback(void (*callback)(void));
#endif

namespace vf {

static __thread char g_Buf[1 << 20];
static __thread size_t g_Len = 0;
static __thread std::string* g_Sink = NULL; //< where the output goes instead of the standard output

// 0 when threads record: they allocate side by side
static size_t heapBytes()
{
#ifdef VF_ASAN
  if (!g_Sink) return __sanitizer_get_current_allocated_bytes();
#endif
  return 0;
}

static void flush()
{
  if (g_Sink) { g_Sink->append(g_Buf, g_Len); g_Len = 0; return; }
  size_t off = 0;
  while (off < g_Len) {
    ssize_t n = ::write(1, g_Buf + off, g_Len - off);
    if (n <= 0) break;
    off += n;
  }
  g_Len = 0;
}

static __thread size_t g_Quota = 0;  //< what the script may still print: a loop that never ends prints without end
static void put(const char* s, size_t n)
{
  if (n > g_Quota) { flush(); if (::write(1, "\n", 1) < 0) {} _exit(42); }
  g_Quota -= n;
  if (g_Len + n > sizeof(g_Buf)) flush();
  if (n > sizeof(g_Buf)) { if (g_Sink) { g_Sink->append(s, n); return; } g_Len = 0; if (::write(1, s, n) < 0) {} return; }
  memcpy(g_Buf + g_Len, s, n);
  g_Len += n;
}
static void put(const char* s) { put(s, strlen(s)); }
static void putf(const char* f, ...)
{
  char b[512];
  va_list ap; va_start(ap, f); int n = vsnprintf(b, sizeof b, f, ap); va_end(ap);
  put(b, n);
}

static void onDeath() { g_Sink = NULL; g_Quota = 64; put("\n"); flush(); }
static pid_t g_Main;
static void onExit() { if (getpid() == g_Main) onDeath(); } // the code under test may end the process
static void onTimer(int) { g_Sink = NULL; g_Quota = 64; put("\n"); flush(); _exit(42); }

static void setTimer(int seconds)
{
  struct itimerval t;
  memset(&t, 0, sizeof t);
  t.it_value.tv_sec = seconds;
  setitimer(ITIMER_PROF, &t, NULL);
}

// tokens of one script: ops separated by ';', words by spaces
typedef std::vector<std::vector<std::string> > Script;
static Script parse(const std::string& s)
{
  Script r;
  std::vector<std::string> cur;
  std::string w;
  for (size_t i = 0; i <= s.size(); ++i) {
    char c = i < s.size() ? s[i] : ';';
    if (c == ';' || c == ' ') {
      if (!w.empty()) { cur.push_back(w); w.clear(); }
      if (c == ';' && !cur.empty()) { r.push_back(cur); cur.clear(); }
    }
    else w.push_back(c);
  }
  return r;
}

static std::string unhex(const std::string& h)
{
  std::string r;
  for (size_t i = 0; i + 1 < h.size(); i += 2) r.push_back((char)strtol(h.substr(i, 2).c_str(), NULL, 16));
  return r;
}
// "-" stands for the empty string; "*<n>:<hex>" for n repetitions of the byte string <hex>
static std::string bytesOf(const std::string& w)
{
  if (w == "-") return "";
  if (w[0] == '*') {
    size_t c = w.find(':');
    size_t n = atol(w.substr(1, c - 1).c_str());
    std::string u = unhex(w.substr(c + 1)), r;
    r.reserve(n * u.size());
    for (size_t i = 0; i < n; ++i) r += u;
    return r;
  }
  return unhex(w);
}
static void putBytes(const char* p, size_t n)
{
  put("[");
  for (size_t i = 0; i < n; ++i) putf(i ? ",%d" : "%d", (int)(unsigned char)p[i]);
  put("]");
}
static void putBytes(const std::string& s) { putBytes(s.data(), s.size()); }

// what the script prints, run in the calling thread with no other one
static std::string record(void (*runScript)(const std::string& mode, const Script& s), const std::string& mode, const Script& s)
{
  std::string out;
  flush();
  g_Sink = &out;
  g_Quota = (size_t)64 << 20;
  runScript(mode, s);
  flush();
  g_Sink = NULL;
  return out;
}
// "@threads <rounds>;..." : the script, whose objects are all its own, is run by several threads at once, again and again.
// Every one has to record what the script alone records; a different record is put instead of it.
static void runThreads(void (*runScript)(const std::string& mode, const Script& s), const std::string& mode, const Script& s, int rounds)
{
  const int n = 6;
  const std::string alone = record(runScript, mode, s);
  std::string got[n];
  std::vector<std::thread> ts;
  for (int t = 0; t < n; ++t)
    ts.push_back(std::thread([&, t] {
      for (int r = 0; r < rounds; ++r) {
        got[t] = record(runScript, mode, s);
        if (got[t] != alone) return;
      }
    }));
  for (int t = 0; t < n; ++t) ts[t].join();
  const std::string* out = &alone;
  for (int t = 0; t < n; ++t) if (got[t] != alone) out = &got[t];
  g_Quota = (size_t)128 << 20;
  put(out->data(), out->size());
}

static int run(int argc, char** argv, void (*runScript)(const std::string& mode, const Script& s), int limit = 10)
{
  if (argc < 3) return 3;
#ifdef VF_ASAN
  __sanitizer_set_death_callback(onDeath);
#endif
  signal(SIGPROF, onTimer);
  g_Main = getpid();
  atexit(onExit);
  std::ifstream in(argv[2]);
  std::string line;
  std::vector<std::pair<std::string, std::string> > lines;
  while (std::getline(in, line)) {
    size_t t = line.find('\t');
    lines.push_back(std::make_pair(line.substr(0, t), line.substr(t + 1)));
  }
  for (size_t i = 0; i < lines.size(); ++i) {
    g_Quota = (size_t)64 << 20;
    put("B "); put(lines[i].first.c_str()); put("\n");
    Script s = parse(lines[i].second);
    if (!s.empty() && s[0][0] == "@threads") {
      const int rounds = atoi(s[0][1].c_str());
      s.erase(s.begin());
      setTimer(60);
      runThreads(runScript, argv[1], s, rounds);
    }
    else {
      setTimer(limit);
      runScript(argv[1], s);
    }
    setTimer(0);
    put("E\n");
  }
  g_Quota = 64;
  put("DONE\n");
  flush();
  return 0;
}

} // namespace vf
#endif
