// C14: Stream file load and save.
#include "vfs.h"
#include "Stream.h"
using bd::Stream;
static const unsigned MAXF = TIER(6, 12);
static void setfile(const char* name, size_t n, Ref& want) { int f = newfile(0644); char t[CAPR]; vf_bytes(t, n); files[f].c.set(t, n); files[f].dur = files[f].c; want.set(t, n); add(norm(name), f); }
static void finish(int before) { VF_ASSERT(open_fds() == before, "every descriptor opened is closed, the caller's stays open"); VF_ASSERT(live_maps() == 0, "every mapping is unmapped"); }
static void prep(Stream& s) { if (vf_flag()) { s << String("old stuff"); s.seek((int)vf_pick(0, 1) * 4, SEEK_SET); } }
extern "C" void load_name() { Ref want; bool exists = vf_flag(); if (exists) setfile("f", vf_pick(0, MAXF), want); Stream s; prep(s); size_t n0 = s.length(), p0 = s.tell(); faults_on = true; int rc = s.loadFile(String("f")); faults_on = false;
  VF_ASSERT(rc == 0 || rc == 1, "returns 0 or 1"); if (rc == 0) { VF_ASSERT(exists, "a missing file cannot be loaded"); String v = s; VF_ASSERT(same(v, want), "the Stream holds exactly the bytes of the file"); VF_ASSERT(s.tell() == 0, "positioned at the start"); VF_ASSERT(s.length() == want.n && same(s.read(100), want), "and can be read"); } else { VF_ASSERT(faulted || !exists, "loading fails only when a system call failed"); if (!exists) { String v = s; VF_ASSERT(s.length() == n0 && s.tell() == p0 && (n0 ? same_const(v, "old stuff", 9) : true), "a file that cannot be opened leaves the Stream alone"); } } finish(0); if (exists) { VF_ASSERT(files[0].c.n == want.n && vf_eq(files[0].c.b, want.b, want.n), "loading leaves the file alone"); } s.clear(); s << String("x"); VF_ASSERT(s.length() == 1, "the Stream can be used"); vf_reach("done"); }
extern "C" void load_fd() { Ref want; setfile("f", vf_pick(0, MAXF), want); int fd = newfd(0, O_RDONLY); fds[fd].pos = vf_pick(0, 1); Stream s; prep(s); faults_on = true; int rc = s.loadFile(fd); faults_on = false; VF_ASSERT(rc == 0 || rc == 1, "returns 0 or 1"); if (rc == 0) { String v = s; VF_ASSERT(same(v, want), "the Stream holds exactly the bytes of the file"); VF_ASSERT(s.tell() == 0, "positioned at the start"); } else VF_ASSERT(faulted, "loading fails only when a system call failed"); finish(1); VF_ASSERT(fds[fd].open, "the caller's descriptor stays open"); vf_reach("done"); }
extern "C" void load_bad_fd() { Stream s; int rc = s.loadFile(vf_flag() ? -1 : 9); VF_ASSERT(rc == 1, "a bad descriptor is reported"); rc = s.writeFile(-1); VF_ASSERT(rc == 1, "a bad descriptor is reported"); finish(0); vf_reach("done"); }
static void mk(Stream& s, Ref& want, String& al, Ref& ra) { String x; build(x, want, al, ra, vf_flag() ? K_SUBSHARED : K_EXACT, vf_pick(0, MAXF)); Stream t(x); swap(s, t); s.seek((int)vf_pick(0, 1), SEEK_SET); }
extern "C" void save_name() { Ref old, want, ra; bool exists = vf_flag(); if (exists) setfile("f", vf_pick(0, 1) * 5, old); Stream s; String al; mk(s, want, al, ra); size_t p0 = s.tell(); bool withmode = vf_flag(); unsigned mode = (unsigned)vf_range(0, 0777); faults_on = true; int rc = withmode ? s.writeFile(String("f"), mode) : s.writeFile(String("f")); faults_on = false;
  VF_ASSERT(rc == 0 || rc == 1, "returns 0 or 1"); Ent* e = look(norm("f")); if (rc == 0) { VF_ASSERT(e != nullptr, "the file exists"); VF_ASSERT(files[e->f].c.n == want.n && vf_eq(files[e->f].c.b, want.b, want.n), "the file holds exactly the Stream content"); if (!exists) VF_ASSERT(files[e->f].mode == (withmode ? mode : 0600u), "a new file has the requested mode"); } else VF_ASSERT(faulted, "saving fails only when a system call failed"); finish(0); String v = s; VF_ASSERT(same(v, want) && s.tell() == p0 && same(al, ra), "saving does not alter the Stream"); vf_reach("done"); }
extern "C" void save_fd() { Ref old, want, ra; setfile("f", vf_pick(0, 2) * 4, old); int fd = newfd(0, O_RDWR); fds[fd].pos = vf_pick(0, 1); Stream s; String al; mk(s, want, al, ra); faults_on = true; int rc = s.writeFile(fd); faults_on = false; VF_ASSERT(rc == 0 || rc == 1, "returns 0 or 1"); if (rc == 0) VF_ASSERT(files[0].c.n == want.n && vf_eq(files[0].c.b, want.b, want.n), "the file holds exactly the Stream content"); else VF_ASSERT(faulted, "saving fails only when a system call failed"); finish(1); VF_ASSERT(fds[fd].open, "the caller's descriptor stays open"); String v = s; VF_ASSERT(same(v, want) && same(al, ra), "saving does not alter the Stream"); vf_reach("done"); }
extern "C" void round_trip() { Stream s, t; Ref want, ra; String al; mk(s, want, al, ra); VF_ASSERT(s.writeFile(String("g")) == 0, "saving works"); VF_ASSERT(t.loadFile(String("g")) == 0, "loading works"); String v = t; VF_ASSERT(same(v, want), "a saved Stream loads back unchanged"); finish(0); vf_reach("done"); }
// an allocation fails while loading
extern "C" void load_oom() { Ref want; setfile("f", 3, want); Stream s; bool by = vf_flag(); int fd = by ? newfd(0, O_RDONLY) : -1; bool threw = false; int rc = 2; String name("f"); vf_alloc_fail(1); try { rc = by ? s.loadFile(fd) : s.loadFile(name); } catch (const std::bad_alloc&) { threw = true; } vf_alloc_fail(0); finish(by ? 1 : 0); if (!threw) { String v = s; if (rc == 0) VF_ASSERT(same(v, want), "the Stream holds exactly the bytes of the file"); } vf_reach(threw ? "oom" : "done"); }
// sizes around the allocation block
extern "C" void file_big() { static const unsigned z[] = {1023, 1024, 1025, 2048}; size_t n = z[vf_pick(0, 3)]; Ref want; want.n = n; for (size_t i = 0; i < n; ++i) want.b[i] = (char)(i * 7); vf_bytes(want.b, 2); vf_bytes(want.b + n - 2, 2); vf_bytes(want.b + 1000, 2); Stream s, t; if (vf_flag()) { int f = newfile(0644); files[f].c = want; add(norm("f"), f); } else { s << String(want.b, n); VF_ASSERT(s.writeFile(String("f")) == 0, "saving works"); Ent* e = look(norm("f")); VF_ASSERT(e && files[e->f].c.n == n && vf_eq(files[e->f].c.b, want.b, n), "the file holds exactly the Stream content"); } VF_ASSERT(t.loadFile(String("f")) == 0, "loading works"); String v = t; VF_ASSERT(same(v, want), "the Stream holds exactly the bytes of the file"); finish(0); vf_reach("done"); }

// a subclass that sees the data through puts(), and may refuse it
struct Hooked : Stream { unsigned calls = 0, loads = 0; size_t bytes = 0; char flip = 0; bool refuse = false; using Stream::loading;
  void take(String v) { ++calls; loads += loading; bytes += v.length(); if (refuse) throw 7; for (size_t i = 0; i < v.length(); ++i) v[i] = (char)(v.data()[i] ^ flip); Stream::puts(std::move(v)); }
  void puts(const String& v) override { take(v); } void puts(String&& v) override { take(std::move(v)); } };
extern "C" void load_hook() { Ref want; setfile("f", vf_pick(0, MAXF), want); Hooked s; s.flip = (char)vf_range(0, 255); bool by = vf_flag(), threw = false; s.refuse = vf_flag(); int fd = by ? newfd(0, O_RDONLY) : -1; int rc = 2; String name("f"); faults_on = true; try { rc = by ? s.loadFile(fd) : s.loadFile(name); } catch (int) { threw = true; } faults_on = false; finish(by ? 1 : 0); VF_ASSERT(!s.loading, "loading is only set while loading"); VF_ASSERT(s.loads == s.calls, "loading is set while the data is put"); VF_ASSERT(threw == (s.refuse && s.calls > 0), "what puts() throws reaches the caller"); if (rc == 0) { VF_ASSERT(s.bytes == want.n, "every byte of the file goes through puts()"); String v = s; VF_ASSERT(v.length() == want.n && s.tell() == 0, "the Stream holds what puts() stored"); for (size_t i = 0; i < want.n; ++i) VF_ASSERT(v.data()[i] == (char)(want.b[i] ^ s.flip), "the Stream holds what puts() stored"); } else VF_ASSERT(faulted || threw, "loading fails only when a system call failed"); s.refuse = false; s.clear(); s.flip = 0; unsigned c0 = s.loads; s << String("ab"); VF_ASSERT(s.length() == 2 && s.loads == c0, "the Stream can be used afterwards"); vf_reach(threw ? "refused" : "done"); }
// file names of every length, also as parts of longer Strings (not followed by a NUL)
extern "C" void file_names() { static const unsigned z[] = {1, 2, 7, 8, 15, 16, 17, 31, 32, 63, 64, 65, 127, 128, 255, 256, 257, 1000}; size_t n = z[vf_pick(0, 17)]; static char nm[1100]; bool abs = vf_flag() && n > 1; for (size_t i = 0; i < n; ++i) nm[i] = i % 50 == 49 && i + 1 < n ? '/' : (char)('a' + i % 11); if (abs) nm[0] = '/'; nm[n] = 0; String name, al; Ref rn, ra; unsigned k = (unsigned)vf_pick(0, 3);
  switch (k) { case 0: name = String(nm); break; case 1: { String x(nm); al = x + String("XY"); name = al.substring(0, (long)n); break; } case 2: { String x("ZZ"); x += String(nm, n); x += 'W'; name = x(2, (long)n); break; } default: name = String((const char*)nm, n); name += "QQ"; name -= size_t(2); }
  char d[2]; vf_bytes(d, 2); Stream s, t; s << String(d, 2); faults_on = true; maxfault = 1; int rc = s.writeFile(name); faults_on = false; VF_ASSERT(rc == 0 || faulted, "saving fails only when a system call failed"); VF_ASSERT(same_const(name, nm, n), "the name is unchanged"); Ent* e = look(norm(nm)); if (rc == 0) { VF_ASSERT(e && files[e->f].c.n == 2 && vf_eq(files[e->f].c.b, d, 2), "the named file holds exactly the Stream content"); VF_ASSERT(t.loadFile(name) == 0, "the named file can be loaded"); String v = t; VF_ASSERT(same_const(v, d, 2), "the Stream holds exactly the bytes of the file"); }
  int others = 0; for (auto& x : dir) if (x.used && &x != e) ++others; VF_ASSERT(others == 0, "no other file is created"); finish(0); vf_reach("done"); }
