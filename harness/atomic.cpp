// C15: AtomicFile.
#include "vfs.h"
#include "AtomicFile.h"
using bd::AtomicFile;
static Ref target, oldc, newc; static bool had_old, complete; static int oldf; static unsigned want_mode; static bool mode_given; static int tmpf; static bool allowed;
// what a crash here would leave behind
static void crash() {
  Ent* e = look(target);
  if (!e) { VF_ASSERT(!had_old, "the target never disappears"); return; }
  if (had_old && e->f == oldf) { VF_ASSERT(files[oldf].c.n == oldc.n && vf_eq(files[oldf].c.b, oldc.b, oldc.n), "the previous content is never modified"); VF_ASSERT(files[oldf].mode == 0640, "the previous file keeps its mode"); return; }
  VF_ASSERT(allowed, "the target changes only by commit()");
  File& f = files[e->f]; VF_ASSERT(f.c.n == newc.n && vf_eq(f.c.b, newc.b, newc.n), "the target holds the complete new content"); VF_ASSERT(f.durable || (f.dur.n == newc.n && vf_eq(f.dur.b, newc.b, newc.n)), "the new content is on disk before it is put in place"); VF_ASSERT(!mode_given || f.mode == want_mode, "the new file has the requested mode");
}
static int temps() { int n = 0; for (auto& e : dir) if (e.used && !eqr(e.name, target)) ++n; return n; }
static size_t dirlen(const Ref& r) { size_t d = 0; for (size_t i = 0; i < r.n; ++i) if (r.b[i] == '/') d = i + 1; return d; }
static void name(char* nm) { switch (vf_pick(0, 4)) { case 0: { const char* p = "f"; for (size_t i = 0; i < 2; ++i) nm[i] = p[i]; break; } case 1: { const char* p = "/d/e/f"; for (size_t i = 0; i < 7; ++i) nm[i] = p[i]; break; } case 2: { const char* p = "./f"; for (size_t i = 0; i < 4; ++i) nm[i] = p[i]; break; } case 3: { const char* p = "d/x.y"; for (size_t i = 0; i < 6; ++i) nm[i] = p[i]; break; } default: nm[0] = 'd'; vf_nzbytes(nm + 1, 1); nm[2] = 'f'; nm[3] = 0; } }
static void setup(const char* nm) { target = norm(nm); had_old = vf_flag(); if (had_old) { oldf = newfile(0640); vf_bytes(files[oldf].c.b, 2); files[oldf].c.n = 2; files[oldf].dur = files[oldf].c; oldc = files[oldf].c; add(target, oldf); } newc.n = 0; crash_point = crash; crash_on = true; allowed = false; }
static bool opened(AtomicFile& a, const String& n, bool fl = true) { mode_given = vf_flag(); want_mode = (unsigned)vf_range(0, 07777); faults_on = fl; bool ok = mode_given ? a.open(n, want_mode) : a.open(n); faults_on = false; VF_ASSERT(ok == a.is_open(), "open() tells whether the file is open"); VF_ASSERT(ok || faulted, "open() fails only when a system call failed"); VF_ASSERT(a.is_open() == (a.fd() != -1), "fd()");
  if (!ok) { VF_ASSERT(open_fds() == 0 && temps() == 0, "a failed open() leaves nothing behind"); return false; } VF_ASSERT(getfd(a.fd()) != nullptr, "fd() is an open descriptor"); tmpf = fds[a.fd()].f; int where = 0; for (auto& e : dir) if (e.used && e.f == tmpf) { ++where; size_t d = dirlen(target); VF_ASSERT(dirlen(e.name) == d && vf_eq(e.name.b, target.b, d), "the temporary file is in the directory of the target"); VF_ASSERT(!eqr(e.name, target), "the temporary file is not the target"); } VF_ASSERT(where == 1, "the temporary file exists"); return true; }
static void put(AtomicFile& a, size_t n) { char t[4]; vf_bytes(t, n); for (size_t i = 0; i < n; ++i) { ssize_t r = vfs_write(a.fd(), t + i, 1); VF_ASSERT(r == 1, "the descriptor can be written"); } newc.app(t, n); }
static void settled() { VF_ASSERT(open_fds() == 0, "the descriptor is closed"); }
static void untouched() { Ent* e = look(target); VF_ASSERT(had_old ? (e && e->f == oldf) : e == nullptr, "the target is untouched"); }
static bool docommit(AtomicFile& a) { allowed = true; faults_on = true; faulted = false; int nu = 0; bool ok = a.commit(); faults_on = false; allowed = false; return ok; }
static bool unlink_failed() { return faulted; }
static void judge(AtomicFile& a, bool ok, bool fu) { Ent* e = look(target); VF_ASSERT(!a.is_open() && a.fd() == -1, "commit() ends the file"); settled(); if (ok) { VF_ASSERT(e && e->f == tmpf, "commit() that returns true has put the file in place"); allowed = true; crash(); VF_ASSERT(temps() == 0, "no temporary file is left"); } else { untouched(); VF_ASSERT(faulted, "commit() fails only when a system call failed"); if (!fu) VF_ASSERT(temps() == 0, "the temporary file is removed"); } }
// the unlink itself failing excuses a leftover temporary file
static bool last_unlink_fault; 
extern "C" void commit_once() { char nm[8]; name(nm); setup(nm); size_t n = vf_pick(0, TIER(3, 4)); bool ok = false; { AtomicFile a; VF_ASSERT(!a.is_open() && a.fd() == -1, "not open yet"); String fn(nm); if (!opened(a, fn)) { vf_reach("noopen"); return; } put(a, n); maxfault = nfault + 1; ok = docommit(a); judge(a, ok, false); if (ok) { oldf = tmpf; had_old = true; oldc = newc; crash_on = false; } } settled(); if (!ok) untouched(); vf_reach(ok ? "committed" : "failed"); }
// several failures at once, the clean-up calls included
extern "C" void commit_faults() { char nm[8] = "/d/f"; setup(nm); AtomicFile a; String fn(nm); if (!opened(a, fn)) return; put(a, 1); maxfault = 100; bool ok = docommit(a); judge(a, ok, true); vf_reach(ok ? "committed" : "failed"); }
extern "C" void abort_or_drop() { char nm[8]; name(nm); setup(nm); unsigned w = (unsigned)vf_pick(0, 2); { AtomicFile a; String fn(nm); if (!opened(a, fn)) return; put(a, vf_pick(0, 2)); if (w == 0) { VF_ASSERT(a.abort(), "abort() of an open file"); VF_ASSERT(!a.is_open() && a.fd() == -1, "abort() ends the file"); settled(); untouched(); VF_ASSERT(temps() == 0, "the temporary file is removed"); if (vf_flag()) VF_ASSERT(!a.abort(), "abort() of a file that is not open"); } else if (w == 1) { faults_on = true; a.abort(); faults_on = false; VF_ASSERT(!a.is_open(), "abort() ends the file"); } } settled(); untouched(); VF_ASSERT(temps() == 0 || (w == 1 && faulted), "the temporary file is removed"); vf_reach("done"); }
// one object used for several files, and commit()/abort() when nothing is open
extern "C" void reuse() { const char* nm = "/d/f"; setup(nm); { AtomicFile a; String fn(nm); bool done = false; for (unsigned i = 0; i < TIER(4, 5); ++i) { switch (vf_pick(0, 3)) {
    case 0: if (nfiles < 5) { newc.n = 0; if (opened(a, fn, false)) put(a, 1); else return; } break;
    case 1: { bool was = a.is_open(); int nd = 0; for (auto& e : dir) nd += e.used; allowed = was; bool ok = a.commit(); allowed = false; VF_ASSERT(ok == was, "commit() works exactly when a file is open"); if (ok) { had_old = true; oldf = tmpf; oldc = newc; files[oldf].mode = 0640; done = true; mode_given = false; } else { int n2 = 0; for (auto& e : dir) n2 += e.used; VF_ASSERT(nd == n2, "commit() with nothing open does nothing"); } break; }
    case 2: { bool was = a.is_open(); VF_ASSERT(a.abort() == was, "abort() works exactly when a file is open"); break; }
    default: if (!a.is_open() && nfiles < 5) { // somebody else now uses the name the temporary file had
      Ref tn = target; tn.n = dirlen(target); tn.app("f.aaaaaa", 8); if (done && !look(tn)) { add(tn, newfile(0600)); VF_ASSERT(!a.commit(), "nothing to commit"); VF_ASSERT(look(tn) != nullptr, "commit() with nothing open removes nothing"); look(tn)->used = false; } } }
    VF_ASSERT(open_fds() == (a.is_open() ? 1 : 0), "no descriptor is leaked"); VF_ASSERT(temps() == (a.is_open() ? 1 : 0), "no temporary file is left behind"); } } settled(); VF_ASSERT(temps() == 0, "no temporary file is left behind"); vf_reach("done"); }
// two objects at once, for the same or for different targets
extern "C" void two_files() { setup("/d/f"); crash_on = false; bool sm = vf_flag(); const char* n2 = sm ? "/d/f" : "/d/g"; Ref t2 = norm(n2); unsigned wa = (unsigned)vf_pick(0, 2), wb = (unsigned)vf_pick(0, 2); bool afirst = vf_flag(); int fa, fb; char x[2]; vf_bytes(x, 2);
  { AtomicFile a, b; String na("/d/f"), nb(n2); VF_ASSERT(a.open(na) && b.open(nb), "both open"); fa = fds[a.fd()].f; fb = fds[b.fd()].f; VF_ASSERT(a.fd() != b.fd() && fa != fb, "each has its own file"); vfs_write(a.fd(), x, 1); vfs_write(b.fd(), x + 1, 1); vfs_write(a.fd(), x, 1); VF_ASSERT(temps() == 2, "two temporary files");
    auto fin = [](AtomicFile& o, unsigned w) { if (w == 0) VF_ASSERT(o.commit(), "commit() works"); else if (w == 1) VF_ASSERT(o.abort(), "abort() works"); if (w < 2) VF_ASSERT(!o.is_open(), "it is over"); };
    AtomicFile &p = afirst ? a : b, &q = afirst ? b : a; int fq = afirst ? fb : fa; fin(p, afirst ? wa : wb); VF_ASSERT(q.is_open() && getfd(q.fd()) && fds[q.fd()].f == fq, "the other one is still open"); int here = 0; for (auto& e : dir) if (e.used && e.f == fq) ++here; VF_ASSERT(here == 1, "its temporary file is still there"); fin(q, afirst ? wb : wa); }
  settled(); int want = had_old ? oldf : -1, want2 = -1; if (sm) { if (wa == 0 && wb == 0) want = afirst ? fb : fa; else if (wa == 0) want = fa; else if (wb == 0) want = fb; } else { if (wa == 0) want = fa; if (wb == 0) want2 = fb; }
  Ent* e = look(target); VF_ASSERT(want < 0 ? e == nullptr : e && e->f == want, "the target is what was committed last"); if (!sm) { e = look(t2); VF_ASSERT(want2 < 0 ? e == nullptr : e && e->f == want2, "the target is what was committed last"); } VF_ASSERT(temps() == (want2 >= 0 ? 1 : 0), "no temporary file is left"); VF_ASSERT(files[fa].c.n == 2 && files[fa].c.b[0] == x[0] && files[fa].c.b[1] == x[0] && files[fb].c.n == 1 && files[fb].c.b[0] == x[1], "each file holds what was written to it"); vf_reach("done"); }
// long directories and file names
extern "C" void long_name() { static const unsigned dz[] = {0, 1, 14, 15, 16, 31, 32, 62, 63, 64, 126, 127, 128, 254, 255, 256, 300, 511, 1023}, fz[] = {1, 15, 16, 31, 32, 63, 64, 127, 128, 200}; static char nm[1400]; size_t d = dz[vf_pick(0, 18)], f = fz[vf_pick(0, 9)], k = 0; bool rel = vf_flag();
  if (d) { if (!rel) nm[k++] = '/'; for (size_t i = 0; i < d; ++i) nm[k++] = i % 40 == 39 && i + 1 < d ? '/' : (char)('a' + i % 7); nm[k++] = '/'; } for (size_t i = 0; i < f; ++i) nm[k++] = (char)('k' + i % 5); nm[k] = 0; setup(nm); { AtomicFile a; String fn(nm, k); unsigned w = (unsigned)vf_pick(0, 2); if (w == 1) { String x("<"); x += fn; x += "GARBAGE"; fn = x(1, (long)k); } else if (w == 2) { fn += "/x"; fn -= size_t(2); } if (!opened(a, fn, false)) return; fn = String("/d/other"); put(a, 2); bool ok = docommit(a); judge(a, ok, true); vf_reach(ok ? "committed" : "failed"); } settled(); }
