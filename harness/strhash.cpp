// Records the string hashes and the substring filter.
#include "common.h"
#include <adt/StringHasher.h>
using namespace vf;
using namespace eni::internal;

template<int K> static unsigned h(const std::string& s) { return StringHasher<K>()(s); }

static void hashes(const std::string& s, unsigned* r)
{
  r[0] = h<RS>(s); r[1] = h<JS>(s); r[2] = h<PJW>(s); r[3] = h<ELF>(s); r[4] = h<BKDR>(s); r[5] = h<SDBM>(s);
  r[6] = h<DJB>(s); r[7] = h<DEK>(s); r[8] = h<BP>(s); r[9] = h<FNV>(s); r[10] = h<AP>(s);
}

static void runScript(const std::string&, const Script& s)
{
  for (size_t n = 0; n < s.size(); ++n) {
    if (s[n][0] == "hash") {
      // equal strings at different addresses, with different capacity and alignment, hash equally
      std::string a = bytesOf(s[n][1]), b, c;
      b.reserve(a.size() + 100); b = "zz" + a; b.erase(0, 2);
      c.assign(a.begin(), a.end());
      unsigned x[11], y[11], z[11];
      hashes(a, x); hashes(b, y); hashes(c, z);
      int same = memcmp(x, y, sizeof x) == 0 && memcmp(x, z, sizeof x) == 0;
      put("{\"op\":\"hash\",\"s\":"); putBytes(a); put(",\"h\":[");
      for (int i = 0; i < 11; ++i) putf("%s[%u,%u]", i ? "," : "", x[i] >> 16, x[i] & 65535);
      putf("],\"same\":%d}\n", same);
    } else {
      std::string p = bytesOf(s[n][1]), t = bytesOf(s[n][2]);
      StringHasher<ES> es;
      put("{\"op\":\"inc\",\"p\":"); putBytes(p); put(",\"s\":"); putBytes(t);
      putf(",\"ret\":%d}\n", (int)StringHasher<ES>::may_include(es(p), es(t)));
    }
  }
}
int main(int argc, char** argv) { return vf::run(argc, argv, runScript); }
