// Long files (C14).
#define CAPR 70000
#include "vfs.h"
#include "Stream.h"
#include <cstring>
using bd::Stream;
extern "C" void huge_file() { static const unsigned z[] = {4095, 4096, 4097, 8192, 65535, 65536, 65537}; size_t n = z[vf_pick(0, 6)]; static char want[70000]; for (size_t i = 0; i < n; ++i) want[i] = (char)(i % 251); vf_bytes(want, 2); vf_bytes(want + n - 2, 2); vf_bytes(want + n / 2, 2); Stream s, t; s << String(want, n); VF_ASSERT(s.writeFile(String("f")) == 0, "saving works"); Ent* e = look(norm("f")); VF_ASSERT(e && files[e->f].c.n == n && !memcmp(files[e->f].c.b, want, n), "the file holds exactly the Stream content"); VF_ASSERT(t.loadFile(String("f")) == 0, "loading works"); String v = t; VF_ASSERT(v.length() == n && t.tell() == 0 && !memcmp(v.data(), want, n), "the Stream holds exactly the bytes of the file"); VF_ASSERT(open_fds() == 0 && live_maps() == 0, "everything is released"); vf_reach("done"); }
