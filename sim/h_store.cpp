// G02 compressed files, G03 serialised and encoded data.
#include "ctx.hpp"
#include <common_robotics_utilities/base64_helpers.hpp>
#include <common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp>
#include <common_robotics_utilities/serialization.hpp>
#include <common_robotics_utilities/simple_graph.hpp>
#include <common_robotics_utilities/simple_graph_search.hpp>
#include <common_robotics_utilities/simple_rrt_planner.hpp>
#include <common_robotics_utilities/voxel_grid.hpp>
#include <common_robotics_utilities/zlib_helpers.hpp>
#include <zlib.h>
#include <cmath>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <unordered_map>

using namespace sim;
using namespace common_robotics_utilities;
using namespace ctx;
namespace ser = common_robotics_utilities::serialization;
using Bytes = std::vector<uint8_t>;

// zlib itself is not instrumented: the regions it is told to use are checked here.
extern "C" {
int sim_memcmp(const void*, const void*, size_t);
#undef inflate
#undef deflate
int real_inflate(z_streamp s, int f) __asm__("inflate");
int real_deflate(z_streamp s, int f) __asm__("deflate");
static void zlib_regions(z_streamp s)
{
  if (s && s->avail_in) sim_memcmp(s->next_in, s->next_in, s->avail_in);
  if (s && s->avail_out) sim_memcmp(s->next_out, s->next_out, s->avail_out);
}
int checked_inflate(z_streamp s, int f) __asm__("sim_inflate");
int checked_deflate(z_streamp s, int f) __asm__("sim_deflate");
int checked_inflate(z_streamp s, int f) { zlib_regions(s); return real_inflate(s, f); }
int checked_deflate(z_streamp s, int f) { zlib_regions(s); return real_deflate(s, f); }
}

namespace
{
struct Local { uint64_t s; uint64_t next() { s = s * 6364136223846793005ull + 1442695040888963407ull; uint64_t x = s ^ (s >> 33); x *= 0xff51afd7ed558ccdull; return x ^ (x >> 29); } uint64_t below(uint64_t n) { return next() % n; } };

// ---- G02 -------------------------------------------------------------------------
struct DataSpec { int kind = 0; size_t size = 0; uint64_t seed = 0; };
DataSpec draw_spec()
{
  DataSpec d; d.kind = (int)draw(5); d.seed = draw(1u << 20);
  switch (draw(24))
  {
    case 0: case 1: d.size = 0; break;
    case 2: case 3: case 4: d.size = 1 + draw(3); break;
    case 5: case 6: case 7: case 8: d.size = draw(64); break;
    case 9: case 10: case 11: case 12: case 13: d.size = draw(5000); break;
    case 14: case 15: d.size = 4096 * draw(5) + draw(3) - (draw(2) ? 1 : 0); if (d.size > 100000) d.size = 0; break;
    case 16: case 17: case 18: d.size = draw(70000); break;
    case 19: d.size = (1u << 20) + draw(5) - 2; break;                    // around the chunk size
    case 20: d.kind = 1; d.size = (1u << 20) - 170 + draw(180); break;    // compresses to about the chunk size
    case 21: d.kind = 0; d.size = (2u << 20) + draw(5) - 2; break;
    case 22: d.size = (1u << 20) + draw(1u << 20); break;
    default: d.size = draw(300);
  }
  return d;
}
Bytes make_data(const DataSpec& d)
{
  Quiet q; Bytes b(d.size); Local r{d.seed * 2 + 1};
  switch (d.kind)
  {
    case 0: break;
    case 1: { size_t i = 0; for (; i + 8 <= b.size(); i += 8) { const uint64_t v = r.next(); memcpy(&b[i], &v, 8); } for (; i < b.size(); i++) b[i] = (uint8_t)r.next(); break; }
    case 2: for (auto& x : b) x = (uint8_t)('a' + (r.next() % 3)); break;
    case 3: for (size_t i = 0; i < b.size();) { const uint8_t v = (uint8_t)r.next(); size_t n = 1 + r.next() % 300; while (n-- && i < b.size()) b[i++] = v; } break;
    default: for (size_t i = 0; i < b.size(); i++) b[i] = (uint8_t)(i * d.seed);
  }
  return b;
}
// An independent decoder of the stored format.
bool reference_inflate(const Bytes& in, Bytes& out)
{
  Quiet q; z_stream s; memset(&s, 0, sizeof s); out.clear();
  if (inflateInit(&s) != Z_OK) fail("harness", "inflateInit");
  static uint8_t tmp[1 << 16]; int ret;
  s.next_in = const_cast<uint8_t*>(in.data()); s.avail_in = (uInt)in.size();
  do { s.next_out = tmp; s.avail_out = sizeof tmp; ret = real_inflate(&s, Z_NO_FLUSH); out.insert(out.end(), tmp, tmp + (sizeof tmp - s.avail_out)); } while (ret == Z_OK);
  inflateEnd(&s);
  return ret == Z_STREAM_END;
}
void damage_bytes(Bytes& b, uint64_t how, uint64_t at, uint64_t v)
{
  Quiet q; injected(F_CORRUPT);
  const size_t n = b.size();
  switch (how)
  {
    case 0: if (n) b[at % n] ^= (uint8_t)(1u << (v % 8)); break;
    case 1: if (n) b.resize(at % n); break;
    case 2: { Local r{v}; for (size_t k = 0; k < 1 + at % 40; k++) b.push_back((uint8_t)r.next()); break; }
    case 3: if (n) for (size_t k = at % n, e = k + 1 + v % 600; k < n && k < e; k++) b[k] = 0; break;
    case 4: if (n) b[at % n] = (uint8_t)v; break;
    case 5: if (n > 1) b.erase(b.begin() + (long)(at % n), b.begin() + (long)std::min(n, at % n + 1 + v % 8)); break;
    case 6: if (n) { Local r{v}; for (size_t k = at % n, e = k + 1 + v % 60; k < n && k < e; k++) b[k] = (uint8_t)r.next(); } break;
    case 7: b.clear(); break;
    default: if (n > 1) std::swap(b[at % n], b[v % n]);
  }
}
void run_memory(const DataSpec& d, const std::vector<std::array<uint64_t, 3>>& dmg, uint32_t faults)
{
  const Bytes data = make_data(d);
  Bytes comp, back; EndCheck ec;
  {
    FaultScope fs(faults); std::string msg;
    const uint64_t a0 = fired(F_ALLOC);
    End e = attempt([&]() { comp = zlib_helpers::CompressBytes(data); }, &msg);
    if (e != RETURNED) { if (fired(F_ALLOC) == a0) fail("refused", "compressing %zu bytes failed: %s", data.size(), msg.c_str()); probe("compression out of memory"); return; }
    e = attempt([&]() { back = zlib_helpers::DecompressBytes(comp); }, &msg);
    if (e != RETURNED) { if (fired(F_ALLOC) == a0) fail("refused", "decompressing what was compressed failed: %s", msg.c_str()); probe("decompression out of memory"); return; }
  }
  Quiet q;
  if (back != data) fail("wrong-data", "%zu bytes do not survive compression", data.size());
  op(); state(mix(comp.size(), data.size()));
  for (auto& m : dmg)
  {
    Bytes bad = comp; damage_bytes(bad, m[0], m[1], m[2]);
    { bad.shrink_to_fit(); }
    Bytes got; std::string msg; End e;
    {
      FaultScope fs(0);
      struct Loud { Loud() {} } loud;
      (void)loud;
      e = attempt([&]() { got = zlib_helpers::DecompressBytes(bad); }, &msg);
    }
    op();
    if (e == RETURNED)
    {
      probe("damaged memory block still decoded");
      Bytes ref;
      if (got != data && !(reference_inflate(bad, ref) && ref == got)) fail("wrong-data", "a damaged block decompressed to something else");
    }
    else if (e == STDEXC || e == BAD_ALLOC) probe("damaged memory block refused");
    else fail("wrong-exception", "decompression ended strangely");
  }
}
struct FileModel { std::vector<Bytes> versions; bool damaged = true, exists = false; };
struct FOp { int k; int f; DataSpec d; uint64_t a, b, c; };
constexpr int kFiles = 3;
std::string fname(int f) { return std::string(kDiskRoot) + "file" + std::to_string(f); }
uint64_t disk_faults() { return fired(F_OPEN) + fired(F_WRITEERR) + fired(F_SHORTWRITE) + fired(F_CLOSEERR) + fired(F_READERR) + fired(F_ALLOC) + fired(F_CRASH); }

void write_file(FileModel& m, int f, const Bytes& data, bool alone)
{
  std::string path; { Quiet q; path = fname(f); }
  const uint64_t c0 = fired(F_CLOSEERR), all0 = disk_faults(); std::string msg;
  const End e = attempt([&]() { zlib_helpers::CompressAndWriteToFile(data, path); }, &msg);
  Quiet q; op();
  if (e != RETURNED && e != STDEXC && e != BAD_ALLOC && e != SYSTEM) fail("wrong-exception", "writing a file ended strangely");
  m.versions.push_back(data);
  if (Disk::dead()) { m.damaged = true; m.exists = false; probe("machine died while writing"); return; }
  if (e == RETURNED)
  {
    if (alone && fired(F_CLOSEERR) != c0) fail("unreported-failure", "closing the file failed but the write returned normally");
    Bytes back;
    if (!Disk::exists(path)) fail("unreported-failure", "the file could not be created but the write returned normally");
    if (!reference_inflate(Disk::live(path), back) || back != data) fail("unreported-failure", "the write of %zu bytes returned normally but the file does not hold them", data.size());
    m.damaged = false; m.exists = true;
    probe("file written"); if (disk_faults() != all0) probe("file written in spite of a fault");
  }
  else
  {
    if (alone && disk_faults() == all0 && !Disk::full()) fail("refused", "writing a file failed without a reason: %s", msg.c_str());
    m.damaged = true; probe("write failure reported");
  }
  state(mix(mix(e, data.size()), m.damaged));
}
void read_file(FileModel& m, int f, bool alone)
{
  std::string path; { Quiet q; path = fname(f); }
  const uint64_t r0 = fired(F_READERR), o0 = fired(F_OPEN), a0 = fired(F_ALLOC); std::string msg; Bytes got;
  const End e = attempt([&]() { got = zlib_helpers::LoadFromFileAndDecompress(path); }, &msg);
  Quiet q; op();
  if (Disk::dead()) return;
  if (e == RETURNED)
  {
    if (!Disk::exists(path)) fail("wrong-data", "reading a file that does not exist returned data");
    if (m.damaged)
    {
      bool known = false; for (auto& v : m.versions) known = known || v == got;
      Bytes ref;
      if (!known && !(reference_inflate(Disk::live(path), ref) && ref == got)) fail("wrong-data", "a damaged file read as %zu bytes that were never written", got.size());
      if (!known) probe("checksum collision");
      probe("damaged file still readable");
    }
    else if (got != m.versions.back()) fail("wrong-data", "an intact file read back as other data");
    else probe("file read back");
    return;
  }
  if (e != STDEXC && e != BAD_ALLOC && e != SYSTEM) fail("wrong-exception", "reading a file ended strangely");
  if (!m.damaged && alone && fired(F_READERR) == r0 && fired(F_OPEN) == o0 && fired(F_ALLOC) == a0) fail("refused", "an intact file cannot be read: %s", msg.c_str());
  probe(m.damaged ? "damaged file refused" : "read failure reported");
}
void run_files()
{
  uint32_t faults = kSched;
  if (chance(3, 4)) for (Fault f : {F_OPEN, F_SHORTWRITE, F_WRITEERR, F_READERR, F_SHORTREAD, F_EINTR, F_CLOSEERR, F_CRASH, F_ALLOC}) if (chance(1, 2)) faults |= bit(f);
  std::vector<FOp> plan; const size_t n = 3 + draw(10);
  for (size_t i = 0; i < n; i++) { FOp o; o.k = (int)draw(13); o.f = (int)draw(kFiles); o.d = draw_spec(); if (plan.size() > 4 && o.d.size > 100000) o.d.size %= 5000; o.a = draw(1u << 24); o.b = draw(1u << 24); o.c = draw(9); plan.push_back(o); }
  const bool par = chance(1, 8);
  Disk::reset();
  FileModel m[kFiles];
  if (par)
  {
    // several threads use different files at once
    std::vector<Bytes> data; for (int i = 0; i < 3; i++) { DataSpec d = plan[(size_t)i].d; d.size %= 20000; data.push_back(make_data(d)); }
    Client c[3];
    FaultScope fs(faults & ~bit(F_CRASH) & ~bit(F_ALLOC));
    for (int i = 0; i < 3; i++) c[i].start([&, i]() { write_file(m[i], i, data[(size_t)i], false); read_file(m[i], i, false); });
    for (auto& x : c) x.join();
    probe("files used by several threads");
  }
  for (auto& o : plan)
  {
    FileModel& x = m[o.f];
    switch (o.k)
    {
      case 0: case 1: case 2: case 3: { const Bytes data = make_data(o.d); FaultScope fs(faults); write_file(x, o.f, data, true); break; }
      case 4: case 5: case 6: case 7: { FaultScope fs(faults & ~bit(F_CRASH)); read_file(x, o.f, true); break; }
      case 8: { Disk::crash(); Quiet q; injected(F_CRASH); for (auto& y : m) { y.damaged = true; } probe("crashed"); break; }
      case 9: case 10:
      {
        Quiet q;
        if (Disk::exists(fname(o.f))) { Bytes b = Disk::live(fname(o.f)); damage_bytes(b, o.c, o.a, o.b); Disk::put(fname(o.f), b); x.damaged = true; probe("stored bytes damaged"); }
        break;
      }
      case 11: Disk::set_capacity(o.c < 3 ? ~0ull : (o.a % (o.c < 6 ? 200 : 30000))); break;
      default: if (o.c & 1) Disk::sync_all(); else { Disk::remove(fname(o.f)); x = FileModel(); }
    }
    if (Disk::dead()) { Disk::crash(); Quiet q; for (auto& y : m) y.damaged = true; probe("restarted after dying in a write"); }
  }
  // whatever happened, everything can still be read or is refused
  Disk::set_capacity(~0ull);
  for (int f = 0; f < kFiles; f++) read_file(m[f], f, true);
}
void run_g02()
{
  if (chance(1, 3))
  {
    const DataSpec d = draw_spec(); std::vector<std::array<uint64_t, 3>> dmg; const size_t n = draw(d.size > 100000 ? 3 : 8);
    for (size_t i = 0; i < n; i++) dmg.push_back({draw(9), draw(1u << 24), draw(1u << 24)});
    const uint32_t f = kSched | (chance(1, 3) ? bit(F_ALLOC) : 0);
    run_memory(d, dmg, f);
  }
  else run_files();
}

// ---- G03 -------------------------------------------------------------------------
template <typename T> struct Codec
{
  const char* name;
  ser::Serializer<T> put;
  ser::Deserializer<T> get;
  std::function<bool(const T&, const T&)> eq;
  std::function<void(const T&)> walk = [](const T&) {};
  bool canonical = true;          // equal values have equal bytes
  bool big_endian = false;
};
struct Damage { int k; uint64_t at, v, w; };
struct TestPlan { size_t prefix, suffix; uint64_t junk; std::vector<Damage> dmg; std::vector<uint64_t> group; int copies; uint64_t far; };
TestPlan draw_test()
{
  TestPlan t; t.prefix = chance(1, 2) ? 0 : draw(12); t.suffix = chance(1, 2) ? 0 : draw(12); t.junk = draw(1u << 20);
  const size_t n = draw(9);
  for (size_t i = 0; i < n; i++) { t.dmg.push_back({(int)draw(12), draw(1u << 20), draw(64), draw(1u << 20)}); t.group.push_back(chance(1, 3)); }
  t.copies = chance(1, 10) ? 2 : 1; t.far = draw(6);
  return t;
}
uint64_t odd_number(uint64_t v, uint64_t size, uint64_t w)
{
  switch (v % 24)
  {
    case 0: return 0; case 1: return 1; case 2: return ~0ull; case 3: return 1ull << 63; case 4: return (1ull << 63) - 1;
    case 5: return 1ull << 61; case 6: return (1ull << 61) + 1; case 7: return 1ull << 60; case 8: return 1ull << 62; case 9: return 1ull << 32;
    case 10: return size; case 11: return size + 1; case 12: return size / 8; case 13: return ~0ull - 7; case 14: return ~0ull - size; case 15: return 0 - (8 + w % 64);
    case 16: return (1ull << 61) + w % 9; case 17: return 1ull << 31; case 18: return 1ull << 24; case 19: return 2 + w % 6; case 20: return (uint64_t)-2ll;
    case 21: return 1ull << (w % 64); case 22: return w; default: return (1ull << 59) + 1;
  }
}
void apply(Bytes& b, size_t lo, const Damage& d)
{
  const size_t n = b.size(); if (n <= lo) return;
  injected(F_CORRUPT);
  const size_t span = n - lo, at = lo + d.at % span;
  switch (d.k)
  {
    case 0: b.resize(at); break;
    case 1: b[at] ^= (uint8_t)(1u << (d.v % 8)); break;
    case 2: b[at] = (uint8_t)d.w; break;
    case 3: { Local r{d.w}; for (size_t k = at; k < n && k < at + 1 + d.v; k++) b[k] = (uint8_t)r.next(); break; }
    case 4: case 5: case 6: case 7:
    {
      // a whole header or number replaced
      if (span < 8) break;
      const size_t words = span / 8; const size_t pos = d.k == 7 ? lo + d.at % (span - 7) : lo + 8 * ((d.k == 4 ? d.at % std::min<size_t>(words, 4) : d.at % words));
      uint64_t v = odd_number(d.v, n, d.w); if (d.w & 1024) v = __builtin_bswap64(v);
      memcpy(&b[pos], &v, 8); break;
    }
    case 8:
    {
      // consecutive numbers replaced
      const uint64_t v = odd_number(d.v, n, d.w); const size_t words = span / 8; if (!words) break;
      size_t pos = lo + 8 * (d.at % words); for (int k = 0; k < 3 && pos + 8 <= n; k++, pos += 8) memcpy(&b[pos], &v, 8); break;
    }
    case 9: { b.erase(b.begin() + (long)at, b.begin() + (long)std::min(n, at + 1 + (size_t)d.v)); break; }
    case 10: b.insert(b.begin() + (long)at, 1 + d.v % 9, (uint8_t)d.w); break;
    default: if (span > 8) b.resize(n - 1 - d.at % std::min<size_t>(span - 1, 9));
  }
}
template <typename T>
void run_codec(const Codec<T>& c, const T& value, const TestPlan& t, uint32_t faults)
{
  Local r{t.junk}; Bytes prefix; for (size_t i = 0; i < t.prefix; i++) prefix.push_back((uint8_t)r.next());
  Bytes buf = prefix; uint64_t wrote = 0; std::string msg;
  {
    EndCheck ec; End e;
    { FaultScope fs(faults); e = attempt([&]() { wrote = c.put(value, buf); }, &msg); }
    if (e == STDEXC) fail("refused", "%s: serialising failed: %s", c.name, msg.c_str());
    ec.check(e, "serialising");
    Quiet q;
    if (buf.size() < prefix.size() || !std::equal(prefix.begin(), prefix.end(), buf.begin())) fail("clobbered", "%s: serialising changed what was in the buffer before", c.name);
    if (e != RETURNED) { buf = prefix; probe("serialising ran out of memory"); }
    if (e != RETURNED) { FaultScope fs(0); wrote = c.put(value, buf); }
    if (buf.size() != prefix.size() + wrote) fail("wrong-count", "%s: %zu bytes were written, %llu reported", c.name, buf.size() - prefix.size(), (unsigned long long)wrote);
    if (c.big_endian && wrote > 1) { Bytes host(wrote); memcpy(host.data(), &value, wrote); std::reverse(host.begin(), host.end()); if (!std::equal(host.begin(), host.end(), buf.begin() + (long)prefix.size())) fail("byte-order", "%s: not in network order", c.name); probe("network order"); }
    for (size_t i = 0; i < t.suffix; i++) buf.push_back((uint8_t)r.next());
    buf.shrink_to_fit();
  }
  {
    const Bytes& shared = buf;
    const uint32_t f = t.copies > 1 ? faults & ~kRes : faults;
    FaultScope fs(f);
    call(t.copies > 1 ? TWO_CALLERS : PLAIN, 2, [&](int) {
      EndCheck ec; std::string m;
      const End e = attempt([&]() {
        const auto got = c.get(shared, t.prefix);
        Quiet q;
        if (!got.HasValue()) fail("lost-value", "%s: nothing was read back", c.name);
        if (got.BytesRead() != wrote) fail("wrong-count", "%s: %llu bytes written, %llu read", c.name, (unsigned long long)wrote, (unsigned long long)got.BytesRead());
        if (!c.eq(got.Value(), value)) fail("wrong-value", "%s: read back another value", c.name);
      }, &m);
      if (e == STDEXC) fail("refused", "%s: intact data refused: %s", c.name, m.c_str());
      if (t.copies > 1)
      {
        Bytes mine; const End e2 = attempt([&]() { c.put(value, mine); });
        Quiet q; if (e2 != RETURNED || mine.size() != wrote || !std::equal(mine.begin(), mine.end(), shared.begin() + (long)t.prefix)) fail("wrong-value", "%s: serialised differently by another thread", c.name);
      }
      if (t.copies == 1) ec.check(e, "deserialising"); else if (e != RETURNED) fail("refused", "%s: intact data refused", c.name);
      Quiet q; op();
    });
    if (t.copies > 1) { Quiet q; probe("decoded by several threads"); }
  }
  // a read that starts where nothing can be
  {
    const uint64_t offs[] = {buf.size(), buf.size() + 1, ~0ull, ~0ull - wrote + 1, 1ull << 63, buf.size() - (buf.empty() ? 0 : 1)};
    const uint64_t o = offs[t.far]; FaultScope fs(0);
    const End e = attempt([&]() { const auto got = c.get(buf, o); Quiet q; if (o >= buf.size() || got.BytesRead() > buf.size() - o) fail("outside", "%s: read outside the buffer", c.name); });
    if (e != RETURNED && e != STDEXC && e != BAD_ALLOC) fail("wrong-exception", "%s: bad offset ended strangely", c.name);
  }
  { Quiet q; op(); state(mix(mix(7, wrote), std::hash<std::string>()(c.name))); probe(c.name); }
  Bytes bad;
  for (size_t i = 0; i < t.dmg.size(); i++)
  {
    {
      Quiet q;
      if (i == 0 || !t.group[i]) bad = buf;
      Bytes fresh = bad; apply(fresh, t.prefix, t.dmg[i]); bad = Bytes(fresh);
    }
    const Bytes exact(bad);         // no spare capacity behind the data
    FaultScope fs(0);
    std::string m;
    const End e = attempt([&]() {
      const auto got = c.get(exact, t.prefix);
      { Quiet q; if (got.BytesRead() > exact.size() - std::min(t.prefix, exact.size())) fail("outside", "%s: %llu bytes read of %zu", c.name, (unsigned long long)got.BytesRead(), exact.size()); probe("damaged data still decoded"); }
      const T v = got.Value();
      c.walk(v);
      // a value that was returned can be used like any other
      Bytes again; c.put(v, again);
      const auto got2 = c.get(again, 0);
      Quiet q;
      if (got2.BytesRead() != again.size()) fail("malformed", "%s: a decoded value does not serialise properly", c.name);
      if (c.canonical) { Bytes third; c.put(got2.Value(), third); if (third != again) fail("malformed", "%s: a decoded value does not survive serialisation", c.name); }
    }, &m);
    Quiet q; op();
    if (e == SYSTEM || e == OTHER || e == INJECTED) fail("wrong-exception", "%s: damaged data ended strangely", c.name);
    if (e != RETURNED) probe("damaged data refused");
  }
}

template <typename T> void run_in_place(const T& v, const TestPlan& t)
{
  Bytes b(16); Local r{t.junk}; for (auto& x : b) x = (uint8_t)r.next();
  const Bytes before = b; const uint64_t at = t.far + t.prefix; uint64_t n = 0;
  const End e = attempt([&]() { n = ser::SerializeNetworkMemcpyableInPlace<T>(v, b, at); });
  Quiet q;
  if (at + sizeof(T) > b.size()) { if (e != STDEXC || b != before) fail("outside", "writing in place past the end was not refused"); probe("in place refused"); return; }
  Bytes want = before, one; ser::SerializeNetworkMemcpyable<T>(v, one); std::copy(one.begin(), one.end(), want.begin() + (long)at);
  if (e != RETURNED || n != sizeof(T) || b != want) fail("wrong-value", "writing in place wrote something else"); probe("written in place");
}
double draw_double()
{
  switch (draw(12))
  {
    case 0: return 0; case 1: return -0.0; case 2: return INFINITY; case 3: return -INFINITY; case 4: return NAN; case 5: return 5e-324; case 6: return 1.7976931348623157e308;
    default: return (double)range(-100000, 100000) / 64.0;
  }
}
bool same_bits(double a, double b) { return memcmp(&a, &b, 8) == 0; }
template <typename T> T draw_num()
{
  if constexpr (std::is_same<T, double>::value) return draw_double();
  else if constexpr (std::is_same<T, float>::value) return (float)draw_double();
  else { const uint64_t v = chance(1, 3) ? odd_number(draw(24), 100, draw(64)) : (draw(1ull << 32) << 32 | draw(1ull << 32)); return (T)v; }
}
template <typename T> bool same_num(const T& a, const T& b) { return memcmp(&a, &b, sizeof(T)) == 0; }
template <typename T> Codec<T> scalar(const char* name) { Codec<T> c; c.name = name; c.put = ser::SerializeMemcpyable<T>; c.get = ser::DeserializeMemcpyable<T>; c.eq = same_num<T>; return c; }
template <typename T> Codec<T> net_scalar(const char* name) { Codec<T> c; c.name = name; c.put = ser::SerializeNetworkMemcpyable<T>; c.get = ser::DeserializeNetworkMemcpyable<T>; c.eq = same_num<T>; c.big_endian = true; return c; }
template <typename V> Codec<V> plain(const char* name, ser::Serializer<V> p, ser::Deserializer<V> g) { Codec<V> c; c.name = name; c.put = p; c.get = g; c.eq = [](const V& a, const V& b) { return a == b; }; return c; }
template <typename V> bool vec_same(const V& a, const V& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < (size_t)a.size(); i++) if (!same_num(a[i], b[i])) return false; return true; }
template <typename T> std::vector<T> draw_vec(size_t max = 9) { std::vector<T> v; const size_t n = chance(1, 200) ? 250 + draw(500) : draw(max); for (size_t i = 0; i < n; i++) v.push_back(draw_num<T>()); return v; }
std::string draw_text() { std::string s; const size_t n = chance(1, 200) ? 250 + draw(300) : draw(20); for (size_t i = 0; i < n; i++) s.push_back((char)draw(256)); return s; }
template <typename S> S draw_string() { S s; const size_t n = chance(1, 60) ? 250 + draw(300) : draw(20); for (size_t i = 0; i < n; i++) s.push_back((typename S::value_type)draw(300)); return s; }
template <typename M> M draw_fixed() { M m; for (int i = 0; i < m.size(); i++) m.data()[i] = draw_double(); return m; }
template <typename M> Codec<M> eigen(const char* name, uint64_t (*p)(const M&, Bytes&), ser::Deserialized<M> (*g)(const Bytes&, uint64_t))
{
  Codec<M> c; c.name = name; c.put = p; c.get = g;
  c.eq = [](const M& a, const M& b) { return a.rows() == b.rows() && a.cols() == b.cols() && (a.size() == 0 || memcmp(a.data(), b.data(), sizeof(double) * (size_t)a.size()) == 0); };
  c.walk = [](const M& m) { volatile double s = 0; for (int i = 0; i < std::min<long>(m.size(), 50); i++) s = s + m.data()[i]; if (m.size()) s = s + m(m.rows() - 1, m.cols() - 1); };
  return c;
}
ser::Serializer<std::string> put_str() { return ser::SerializeString<char>; }
ser::Deserializer<std::string> get_str() { return ser::DeserializeString<char>; }

using GNode = simple_graph::GraphNode<std::string>; using G = simple_graph::Graph<std::string>;
simple_graph::GraphEdge draw_edge(int64_t n) { return simple_graph::GraphEdge((int64_t)draw((uint64_t)n), (int64_t)draw((uint64_t)n), draw_double(), draw(1u << 30)); }
bool edge_same(const simple_graph::GraphEdge& a, const simple_graph::GraphEdge& b) { return a.GetFromIndex() == b.GetFromIndex() && a.GetToIndex() == b.GetToIndex() && same_bits(a.GetWeight(), b.GetWeight()) && a.GetScratchpad() == b.GetScratchpad(); }
bool edges_same(const std::vector<simple_graph::GraphEdge>& a, const std::vector<simple_graph::GraphEdge>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!edge_same(a[i], b[i])) return false; return true; }
bool node_same(const GNode& a, const GNode& b) { return a.GetValueImmutable() == b.GetValueImmutable() && edges_same(a.GetInEdgesImmutable(), b.GetInEdgesImmutable()) && edges_same(a.GetOutEdgesImmutable(), b.GetOutEdgesImmutable()); }
bool graph_same(const G& a, const G& b) { if (a.Size() != b.Size()) return false; for (int64_t i = 0; i < a.Size(); i++) if (!node_same(a.GetNodeImmutable(i), b.GetNodeImmutable(i))) return false; return true; }
G draw_graph()
{
  const int64_t n = chance(1, 25) ? 20 + (int64_t)draw(60) : (int64_t)draw(6); G g((size_t)n);
  for (int64_t i = 0; i < n; i++) g.AddNode(draw_text());
  if (n > 1) { const size_t m = draw(n > 6 ? 150 : 8); for (size_t i = 0; i < m; i++) { const int64_t a = (int64_t)draw((uint64_t)n), b = (int64_t)draw((uint64_t)n); if (a != b) { if (draw(2)) g.AddEdgeBetweenNodes(a, b, (double)draw(100)); else g.AddEdgesBetweenNodes(a, b, (double)draw(100)); } } }
  return g;
}
using RState = simple_rrt_planner::SimpleRRTPlannerState<std::string>; using RTree = simple_rrt_planner::SimpleRRTPlannerTree<std::string>;
bool rstate_same(const RState& a, const RState& b) { return a.GetValueImmutable() == b.GetValueImmutable() && a.GetParentIndex() == b.GetParentIndex() && a.GetChildIndices() == b.GetChildIndices(); }

using Eigen::Isometry3d;
Isometry3d draw_pose() { Isometry3d p = Isometry3d::Identity(); p.translation() << (double)range(-20, 20), (double)range(-20, 20) / 4, (double)range(-5, 5); if (chance(1, 2)) { const double a = (double)draw(7); p.linear() << std::cos(a), -std::sin(a), 0, std::sin(a), std::cos(a), 0, 0, 0, 1; } return p; }
voxel_grid::GridSizes draw_sizes(int max) { return voxel_grid::GridSizes(0.25 * (double)(1 + draw(4)), 0.25 * (double)(1 + draw(4)), 0.5, (int64_t)(1 + draw((uint64_t)max)), (int64_t)(1 + draw((uint64_t)max)), (int64_t)(1 + draw((uint64_t)max))); }
template <typename S> bool sizes_same(const S& a, const S& b) { return a.Valid() == b.Valid() && a.CellXSize() == b.CellXSize() && a.CellYSize() == b.CellYSize() && a.CellZSize() == b.CellZSize() && a.NumXCells() == b.NumXCells() && a.NumYCells() == b.NumYCells() && a.NumZCells() == b.NumZCells() && a.TotalCells() == b.TotalCells(); }
bool pose_same(const Isometry3d& a, const Isometry3d& b) { return memcmp(a.data(), b.data(), 16 * sizeof(double)) == 0; }
template <typename T> T draw_item();
template <> std::string draw_item<std::string>() { return draw_text(); }
template <> int32_t draw_item<int32_t>() { return (int32_t)draw(1000); }
template <> uint8_t draw_item<uint8_t>() { return (uint8_t)draw(256); }
template <typename T> ser::Serializer<T> item_put() { return ser::SerializeMemcpyable<T>; }
template <typename T> ser::Deserializer<T> item_get() { return ser::DeserializeMemcpyable<T>; }
template <> ser::Serializer<std::string> item_put<std::string>() { return put_str(); }
template <> ser::Deserializer<std::string> item_get<std::string>() { return get_str(); }
template <typename T> void use(const T& v) { volatile size_t s = 0; if constexpr (std::is_same<T, std::string>::value) { for (char ch : v) s = s + (size_t)ch; } else s = (size_t)v; }

template <typename T>
void run_dense(const TestPlan& t, uint32_t faults)
{
  using Grid = voxel_grid::VoxelGrid<T>;
  Grid g;
  if (!chance(1, 10))
  {
    g = Grid(draw_pose(), draw_sizes(4), draw_item<T>(), draw_item<T>());
    const size_t n = draw(9);
    for (size_t i = 0; i < n; i++) g.SetIndex((int64_t)draw(4), (int64_t)draw(4), (int64_t)draw(4), draw_item<T>());
  }
  Codec<Grid> c; c.name = "dense grid";
  c.put = [](const Grid& v, Bytes& b) { return Grid::Serialize(v, b, item_put<T>()); };
  c.get = [](const Bytes& b, uint64_t o) { return Grid::Deserialize(b, o, item_get<T>()); };
  c.eq = [](const Grid& a, const Grid& b) {
    if (a.IsInitialized() != b.IsInitialized() || !pose_same(a.GetOriginTransform(), b.GetOriginTransform()) || (a.GetInverseOriginTransform().matrix() - b.GetInverseOriginTransform().matrix()).norm() > 1e-9) return false;
    if (!a.IsInitialized()) return true;
    if (!sizes_same(a.GetGridSizes(), b.GetGridSizes()) || a.GetDefaultValue() != b.GetDefaultValue() || a.GetOOBValue() != b.GetOOBValue()) return false;
    const auto& s = a.GetGridSizes();
    for (int64_t x = 0; x < s.NumXCells(); x++) for (int64_t y = 0; y < s.NumYCells(); y++) for (int64_t z = 0; z < s.NumZCells(); z++)
      if (!(a.GetIndexImmutable(x, y, z).Value() == b.GetIndexImmutable(x, y, z).Value())) return false;
    return true;
  };
  c.walk = [](const Grid& v) {
    Grid w = v;
    if (!v.IsInitialized()) return;
    use(v.GetDefaultValue()); use(v.GetOOBValue());
    const auto& s = v.GetGridSizes(); const int64_t nx = s.NumXCells(), ny = s.NumYCells(), nz = s.NumZCells();
    const int64_t pts[][3] = {{0, 0, 0}, {nx - 1, ny - 1, nz - 1}, {nx / 2, ny / 2, nz / 2}, {nx - 1, 0, 0}, {0, ny - 1, 0}, {0, 0, nz - 1}, {nx, ny, nz}, {-1, 0, 0}};
    for (auto& p : pts)
    {
      const bool in = s.IndexInBounds(p[0], p[1], p[2]);
      const auto q = v.GetIndexImmutable(p[0], p[1], p[2]);
      if (q.HasValue() != in) fail("malformed", "dense grid: a decoded grid misjudges its bounds");
      if (q) use(q.Value());
      const T val = in ? q.Value() : v.GetDefaultValue();
      w.SetIndex(p[0], p[1], p[2], val);
    }
    w.GetLocationImmutable(0.1, 0.2, 0.3);
  };
  run_codec(c, g, t, faults);
}
template <typename T>
void run_sparse(const TestPlan& t, uint32_t faults)
{
  using Grid = voxel_grid::DynamicSpatialHashedVoxelGrid<T>;
  Grid g;
  struct W { double x, y, z; }; std::vector<W> at;
  if (!chance(1, 10))
  {
    g = Grid(draw_pose(), draw_sizes(3), draw_item<T>(), draw(4));
    const size_t n = draw(5);
    for (size_t i = 0; i < n; i++)
    {
      W w{(double)range(-9, 9) / 4, (double)range(-9, 9) / 4, (double)range(-9, 9) / 4}; at.push_back(w);
      g.SetLocation(w.x, w.y, w.z, chance(1, 2) ? voxel_grid::DSHVGSetType::SET_CELL : voxel_grid::DSHVGSetType::SET_CHUNK, draw_item<T>());
    }
  }
  Codec<Grid> c; c.name = "sparse grid"; c.canonical = false;
  c.put = [](const Grid& v, Bytes& b) { return Grid::Serialize(v, b, item_put<T>()); };
  c.get = [](const Bytes& b, uint64_t o) { return Grid::Deserialize(b, o, item_get<T>()); };
  c.eq = [&at](const Grid& a, const Grid& b) {
    if (a.IsInitialized() != b.IsInitialized() || !pose_same(a.GetOriginTransform(), b.GetOriginTransform()) || (a.GetInverseOriginTransform().matrix() - b.GetInverseOriginTransform().matrix()).norm() > 1e-9) return false;
    if (a.GetImmutableInternalChunks().size() != b.GetImmutableInternalChunks().size()) return false;
    if (!a.IsInitialized()) return true;
    if (!sizes_same(a.GetChunkGridSizes(), b.GetChunkGridSizes()) || a.GetDefaultValue() != b.GetDefaultValue()) return false;
    for (auto& kv : a.GetImmutableInternalChunks()) { auto it = b.GetImmutableInternalChunks().find(kv.first); if (it == b.GetImmutableInternalChunks().end() || it->second.FillStatus() != kv.second.FillStatus()) return false; }
    for (auto& w : at) for (double d : {0.0, 0.25, -0.25, 1.0})
    {
      auto p = a.GetLocationImmutable(w.x + d, w.y, w.z - d), q = b.GetLocationImmutable(w.x + d, w.y, w.z - d);
      if (p.FoundStatus() != q.FoundStatus() || (p && !(p.Value() == q.Value()))) return false;
    }
    return true;
  };
  c.walk = [](const Grid& v) {
    Grid w = v;
    use(v.GetDefaultValue());
    auto probe_at = [&](const Eigen::Vector4d& l) { std::string m; attempt([&]() { auto q = v.GetLocationImmutable4d(l); if (q) use(q.Value()); }, &m); attempt([&]() { const T d = v.GetDefaultValue(); if (v.GetChunkGridSizes().TotalCells() < 10000) w.SetLocation4d(l, voxel_grid::DSHVGSetType::SET_CELL, d); }, &m); };
    size_t n = 0;
    for (auto& kv : v.GetImmutableInternalChunks())
    {
      if (n++ > 8) break;
      attempt([&]() { auto q = kv.second.GetIndexImmutable(voxel_grid::GridIndex(0, 0, 0)); if (q) use(q.Value()); });
      const Eigen::Vector4d in = v.GetOriginTransform() * kv.second.GetChunkCenterInGridFrame();
      attempt([&]() { auto q = kv.second.GetLocationImmutable4d(kv.second.GetChunkCenterInGridFrame()); if (q) use(q.Value()); });
      attempt([&]() { auto q = kv.second.GetLocationImmutable4d(kv.first.Base()); if (q) use(q.Value()); });
      probe_at(in); probe_at(kv.first.Base());
    }
    probe_at(Eigen::Vector4d(0.1, 0.2, 0.3, 1.0));
  };
  run_codec(c, g, t, faults);
}
template <typename T>
void run_chunk(const TestPlan& t, uint32_t faults)
{
  using Chunk = voxel_grid::DynamicSpatialHashedVoxelGridChunk<T>;
  const auto sizes = draw_sizes(3); const voxel_grid::ChunkRegion reg((double)range(-4, 4), (double)range(-4, 4), (double)range(-4, 4));
  Chunk k; if (!chance(1, 8)) k = Chunk(reg, sizes, chance(1, 2) ? voxel_grid::DSHVGFillType::FILL_CELL : voxel_grid::DSHVGFillType::FILL_CHUNK, draw_item<T>());
  if (k.FillStatus() != voxel_grid::DSHVGFillStatus::NOT_FILLED) { const size_t n = draw(4); for (size_t i = 0; i < n; i++) k.SetCellLocation4d(reg.Base() + Eigen::Vector4d(0.1 * (double)draw(2), 0, 0.4 * (double)draw(2), 0), draw_item<T>()); }
  Codec<Chunk> c; c.name = "chunk";
  c.put = [](const Chunk& v, Bytes& b) { return Chunk::Serialize(v, b, item_put<T>()); };
  c.get = [](const Bytes& b, uint64_t o) { return Chunk::Deserialize(b, o, item_get<T>()); };
  auto cells = [](const Chunk& v, const std::function<void(const T&)>& f) {
    for (int64_t x = 0; x < 4; x++) for (int64_t y = 0; y < 4; y++) for (int64_t z = 0; z < 4; z++)
      attempt([&]() { auto q = v.GetIndexImmutable(voxel_grid::GridIndex(x, y, z)); if (q) f(q.Value()); });
  };
  c.eq = [cells](const Chunk& a, const Chunk& b) {
    if (a.FillStatus() != b.FillStatus()) return false;
    std::vector<T> x, y; cells(a, [&](const T& v) { x.push_back(v); }); cells(b, [&](const T& v) { y.push_back(v); });
    return x == y && a.GetChunkCenterInGridFrame() == b.GetChunkCenterInGridFrame();
  };
  c.walk = [cells](const Chunk& v) {
    cells(v, [](const T& x) { use(x); });
    const Eigen::Vector4d mid = v.GetChunkCenterInGridFrame();
    attempt([&]() { auto q = v.GetLocationImmutable4d(mid); if (q) use(q.Value()); });
    attempt([&]() { auto q = v.GetIndexImmutable(voxel_grid::GridIndex(1ll << 40, 1ll << 40, 5)); if (q) use(q.Value()); });
    attempt([&]() { auto q = v.GetIndexImmutable(voxel_grid::GridIndex(0, 1ll << 31, 1ll << 20)); if (q) use(q.Value()); });
  };
  run_codec(c, k, t, faults);
}

// Base64 text.
int b64(char ch) { const char* t = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; const char* p = ch ? strchr(t, ch) : nullptr; return p ? (int)(p - t) : -1; }
std::string reference_encode(const Bytes& b)
{
  static const char* t = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string s;
  for (size_t i = 0; i < b.size(); i += 3)
  {
    const uint32_t n = (uint32_t)b[i] << 16 | (i + 1 < b.size() ? (uint32_t)b[i + 1] << 8 : 0) | (i + 2 < b.size() ? b[i + 2] : 0);
    s += t[n >> 18]; s += t[n >> 12 & 63]; s += i + 1 < b.size() ? t[n >> 6 & 63] : '='; s += i + 2 < b.size() ? t[n & 63] : '=';
  }
  return s;
}
void run_base64(const TestPlan& t, uint32_t faults)
{
  Bytes data; const bool vast = chance(1, 60); const size_t n = vast ? draw(200000) : chance(1, 6) ? draw(600) : draw(14);
  if (vast) { Quiet q; Local r{draw(1u << 20)}; for (size_t i = 0; i < n; i++) data.push_back((uint8_t)r.next()); }
  else for (size_t i = 0; i < n; i++) data.push_back((uint8_t)draw(256));
  std::string text; Bytes back; EndCheck ec; End e; std::string msg;
  { FaultScope fs(faults); e = attempt([&]() { text = base64_helpers::Encode(data); back = base64_helpers::Decode(text); }, &msg); }
  if (e == STDEXC) fail("refused", "base64: %s", msg.c_str());
  ec.check(e, "base64");
  if (e != RETURNED) { FaultScope fs(0); text = base64_helpers::Encode(data); back = base64_helpers::Decode(text); }
  {
    Quiet q; op(); probe("base64");
    if (back != data) fail("wrong-value", "base64: %zu bytes read back differently", data.size());
    if (text != reference_encode(data)) fail("wrong-text", "base64: %zu bytes are encoded in a non-standard way", data.size());
  }
  for (auto& d : t.dmg)
  {
    std::string bad;
    {
      Quiet q; Bytes raw(text.begin(), text.end()); Damage x = d;
      if (x.k == 2 && (x.w & 1)) x.w |= 128;
      if (x.k == 4) { for (size_t k = 0; k < raw.size(); k += 1 + x.v) raw[k] = (uint8_t)(x.w + k); }
      else if (x.k == 5) raw.assign(1 + x.v % 9, '=');
      else if (x.k == 6) { raw.resize(x.v % 9); Local r{x.w}; for (auto& z : raw) z = (uint8_t)r.next(); }
      else apply(raw, 0, x);
      bad = std::string(raw.begin(), raw.end());
    }
    FaultScope fs(0); Bytes got; const std::string exact(bad); std::string m;
    const End r = attempt([&]() { got = base64_helpers::Decode(exact); }, &m);
    Quiet q; op();
    if (r != RETURNED && r != STDEXC && r != BAD_ALLOC) fail("wrong-exception", "base64: damaged text ended strangely");
    if (r != RETURNED) { probe("damaged text refused"); continue; }
    probe("damaged text decoded");
    if (got.size() > bad.size()) fail("malformed", "base64: %zu characters decoded to %zu bytes", bad.size(), got.size());
    // bytes that depend on undamaged characters only
    for (size_t i = 0; i + 4 <= bad.size() && i / 4 * 3 + 3 <= got.size(); i += 4)
    {
      if (bad[i] == '=' || bad[i + 1] == '=' || bad[i + 2] == '=' || bad[i + 3] == '=') break;
      const int a = b64(bad[i]), b = b64(bad[i + 1]), c = b64(bad[i + 2]), f = b64(bad[i + 3]); const size_t o = i / 4 * 3;
      if (bad.size() % 4 && i + 4 > bad.size() - bad.size() % 4) break;
      if (a >= 0 && b >= 0 && got[o] != (uint8_t)(a << 2 | b >> 4)) fail("garbled", "base64: a damaged character changes its neighbours");
      if (b >= 0 && c >= 0 && got[o + 1] != (uint8_t)(b << 4 | c >> 2)) fail("garbled", "base64: a damaged character changes its neighbours");
      if (c >= 0 && f >= 0 && got[o + 2] != (uint8_t)(c << 6 | f)) fail("garbled", "base64: a damaged character changes its neighbours");
    }
  }
}

template <typename K, typename V, typename M>
Codec<M> map_codec(const char* name, bool net, ser::Serializer<K> kp, ser::Serializer<V> vp, ser::Deserializer<K> kg, ser::Deserializer<V> vg)
{
  Codec<M> c; c.name = name;
  c.put = [=](const M& m, Bytes& b) { return net ? ser::SerializeNetworkMapLike<K, V, M>(m, b, kp, vp) : ser::SerializeMapLike<K, V, M>(m, b, kp, vp); };
  c.get = [=](const Bytes& b, uint64_t o) { return net ? ser::DeserializeNetworkMapLike<K, V, M>(b, o, kg, vg) : ser::DeserializeMapLike<K, V, M>(b, o, kg, vg); };
  c.eq = [](const M& a, const M& b) { return a == b; };
  return c;
}
// more elements than 16 bits count, without damage
template <typename V>
void vast_round(const char* name, uint64_t (*put)(const V&, Bytes&), serialization::Deserialized<V> (*get)(const Bytes&, uint64_t))
{
  V v; Bytes b; uint64_t wrote, pre;
  {
    Quiet q; const size_t n = 65530 + draw(1500); Local r{draw(1u << 20)};
    v.resize(n); for (size_t i = 0; i < n; i++) v[i] = (typename V::value_type)r.next();
    pre = draw(9); b.assign(pre, 7);
  }
  wrote = put(v, b);
  op();
  if (wrote != b.size() - pre) fail("bytes-written", "%s of %zu elements: %llu bytes written, the buffer grew by %zu", name, v.size(), (unsigned long long)wrote, b.size() - (size_t)pre);
  { Quiet q; for (uint64_t i = draw(5); i > 0; i--) b.push_back(9); }
  const auto back = get(b, pre);
  Quiet q;
  if (back.BytesRead() != wrote || !(back.Value() == v)) fail("wrong-value", "%s of %zu elements read back differently", name, v.size());
  probe("vast container");
}
template <typename V, typename PUT, typename GET, typename EQ>
void vast_codec(const char* name, const V& v, const PUT& put, const GET& get, const EQ& eq)
{
  Bytes b; uint64_t pre; { Quiet q; pre = draw(9); b.assign(pre, 7); }
  const uint64_t wrote = put(v, b);
  op();
  if (wrote != b.size() - pre) fail("bytes-written", "a large %s: %llu bytes written, the buffer grew by %zu", name, (unsigned long long)wrote, b.size() - (size_t)pre);
  { Quiet q; for (uint64_t i = draw(5); i > 0; i--) b.push_back(9); }
  const auto back = get(b, pre);
  Quiet q;
  if (back.BytesRead() != wrote || !eq(back.Value(), v)) fail("wrong-value", "a large %s read back differently", name);
  probe("large container");
}
// containers, graphs, trees and matrices with many elements, without damage
void run_large()
{
  FaultScope fs(0);
  const size_t n = chance(1, 6) ? 65530 + draw(300) : chance(1, 2) ? 240 + draw(60) : 60 + draw(5000);
  Local r{draw(1u << 20)}; const bool net = chance(1, 2);
  const auto eq = [](const auto& a, const auto& b) { return a == b; };
  const auto p8 = net ? ser::Serializer<uint8_t>(ser::SerializeNetworkMemcpyable<uint8_t>) : ser::Serializer<uint8_t>(ser::SerializeMemcpyable<uint8_t>);
  const auto g8 = net ? ser::Deserializer<uint8_t>(ser::DeserializeNetworkMemcpyable<uint8_t>) : ser::Deserializer<uint8_t>(ser::DeserializeMemcpyable<uint8_t>);
  const auto p32 = net ? ser::Serializer<uint32_t>(ser::SerializeNetworkMemcpyable<uint32_t>) : ser::Serializer<uint32_t>(ser::SerializeMemcpyable<uint32_t>);
  const auto g32 = net ? ser::Deserializer<uint32_t>(ser::DeserializeNetworkMemcpyable<uint32_t>) : ser::Deserializer<uint32_t>(ser::DeserializeMemcpyable<uint32_t>);
  switch (draw(8))
  {
    case 0:
    {
      using V = std::vector<uint8_t>; V v; { Quiet q; v.resize(n); for (auto& x : v) x = (uint8_t)r.next(); }
      vast_codec("vector", v, [&](const V& x, Bytes& b) { return net ? ser::SerializeNetworkVectorLike<uint8_t>(x, b, p8) : ser::SerializeVectorLike<uint8_t>(x, b, p8); },
        [&](const Bytes& b, uint64_t o) { return net ? ser::DeserializeNetworkVectorLike<uint8_t>(b, o, g8) : ser::DeserializeVectorLike<uint8_t>(b, o, g8); }, eq);
      break;
    }
    case 1:
    {
      using M = std::map<uint32_t, uint8_t>; M m; { Quiet q; while (m.size() < n) m[(uint32_t)r.next()] = (uint8_t)r.next(); }
      vast_codec("map", m, [&](const M& x, Bytes& b) { return net ? ser::SerializeNetworkMapLike<uint32_t, uint8_t, M>(x, b, p32, p8) : ser::SerializeMapLike<uint32_t, uint8_t, M>(x, b, p32, p8); },
        [&](const Bytes& b, uint64_t o) { return net ? ser::DeserializeNetworkMapLike<uint32_t, uint8_t, M>(b, o, g32, g8) : ser::DeserializeMapLike<uint32_t, uint8_t, M>(b, o, g32, g8); }, eq);
      break;
    }
    case 2:
    {
      using S = std::set<uint32_t>; S m; { Quiet q; while (m.size() < n) m.insert((uint32_t)r.next()); }
      vast_codec("set", m, [&](const S& x, Bytes& b) { return net ? ser::SerializeNetworkSetLike<uint32_t, S>(x, b, p32) : ser::SerializeSetLike<uint32_t, S>(x, b, p32); },
        [&](const Bytes& b, uint64_t o) { return net ? ser::DeserializeNetworkSetLike<uint32_t, S>(b, o, g32) : ser::DeserializeSetLike<uint32_t, S>(b, o, g32); }, eq);
      break;
    }
    case 3:
    {
      const long rows = 1 + (long)(n % 400), cols = 1 + (long)r.below(120); Eigen::MatrixXd m(rows, cols); for (long i = 0; i < m.size(); i++) m.data()[i] = (double)r.next();
      vast_codec("matrix", m, ser::SerializeMatrixXd, ser::DeserializeMatrixXd, [](const auto& a, const auto& b) { return a.rows() == b.rows() && a.cols() == b.cols() && a == b; });
      break;
    }
    case 4:
    {
      Eigen::VectorXd m((long)n); for (long i = 0; i < m.size(); i++) m[i] = (double)r.next();
      vast_codec("vector of reals", m, ser::SerializeVectorXd, ser::DeserializeVectorXd, [](const auto& a, const auto& b) { return a.size() == b.size() && a == b; });
      break;
    }
    case 5:
    {
      using D = simple_graph_search::DijkstrasResult; std::vector<int64_t> prev; std::vector<double> dist; { Quiet q; for (size_t i = 0; i < n; i++) { prev.push_back((int64_t)r.below(n)); dist.push_back((double)r.next()); } }
      vast_codec("search result", D(prev, dist), D::Serialize, D::Deserialize, [&](const D& a, const D&) { if (a.Size() != (int64_t)n) return false; for (int64_t i = 0; i < a.Size(); i++) if (a.GetPreviousIndex(i) != prev[(size_t)i] || a.GetNodeDistance(i) != dist[(size_t)i]) return false; return true; });
      break;
    }
    case 6:
    {
      const size_t k = n > 6000 ? 6000 : n; RTree tree; { Quiet q; for (size_t i = 0; i < k; i++) { const std::string s = std::to_string(r.below(1000)); if (i == 0) tree.AddNode(s); else tree.AddNodeAndConnect(s, r.below(3) ? 0 : (int64_t)r.below(i)); } }
      vast_codec("planner tree", tree, [](const RTree& v, Bytes& b) { return RTree::Serialize(v, b, put_str()); }, [](const Bytes& b, uint64_t o) { return RTree::Deserialize(b, o, get_str()); },
        [](const RTree& a, const RTree& b) { if (a.Size() != b.Size()) return false; for (int64_t i = 0; i < a.Size(); i++) if (!rstate_same(a.GetNodeImmutable(i), b.GetNodeImmutable(i))) return false; return true; });
      break;
    }
    default:
    {
      const int64_t k = n > 1500 ? 1500 : (int64_t)n; G g; { Quiet q; for (int64_t i = 0; i < k; i++) g.AddNode(std::to_string(r.below(1000))); for (int64_t i = 0; i < k; i++) { if (i > 0) g.AddEdgeBetweenNodes(i, 0, (double)i); const int64_t f = (int64_t)r.below((uint64_t)k); if (f != i) g.AddEdgeBetweenNodes(f, i, (double)i); } }
      vast_codec("graph", g, [](const G& v, Bytes& b) { return G::Serialize(v, b, put_str()); }, [](const Bytes& b, uint64_t o) { return G::Deserialize(b, o, get_str()); }, graph_same);
    }
  }
}
void run_g03()
{
  if (chance(1, 100)) { run_large(); return; }
  if (chance(1, 150))
  {
    FaultScope fs(0);
    using VB = std::vector<uint8_t>; using VW = std::vector<uint16_t>; using SW = std::basic_string<uint16_t>;
    switch (draw(5))
    {
      case 0: vast_round<std::string>("string", ser::SerializeString<char>, ser::DeserializeString<char>); break;
      case 1: vast_round<VB>("vector of bytes", ser::SerializeMemcpyableVectorLike<uint8_t, VB>, ser::DeserializeMemcpyableVectorLike<uint8_t, VB>); break;
      case 2: vast_round<VW>("network vector of u16", ser::SerializeNetworkMemcpyableVectorLike<uint16_t, VW>, ser::DeserializeNetworkMemcpyableVectorLike<uint16_t, VW>); break;
      case 3: vast_round<SW>("network wide string", ser::SerializeNetworkString<uint16_t>, ser::DeserializeNetworkString<uint16_t>); break;
      default: vast_round<VB>("network vector of bytes", ser::SerializeNetworkMemcpyableVectorLike<uint8_t, VB>, ser::DeserializeNetworkMemcpyableVectorLike<uint8_t, VB>); break;
    }
    return;
  }
  limit_allocation(1 << 20);      // a damaged size may legitimately ask for as much as there is
  const TestPlan t = draw_test(); const uint32_t faults = kSched | (chance(1, 3) ? bit(F_ALLOC) : 0);
  if (chance(1, 30))
  {
    FaultScope fs(0);
    switch (draw(4)) { case 0: run_in_place(draw_double(), t); break; case 1: run_in_place(draw_num<uint16_t>(), t); break; case 2: run_in_place(draw_num<int32_t>(), t); break; default: run_in_place(draw_num<uint8_t>(), t); }
  }
  switch (draw(50))
  {
    case 0: run_codec(scalar<double>("double"), draw_double(), t, faults); break;
    case 1: run_codec(scalar<int16_t>("int16"), draw_num<int16_t>(), t, faults); break;
    case 2: run_codec(net_scalar<uint8_t>("network u8"), draw_num<uint8_t>(), t, faults); break;
    case 3: run_codec(net_scalar<int16_t>("network i16"), draw_num<int16_t>(), t, faults); break;
    case 4: run_codec(net_scalar<uint32_t>("network u32"), draw_num<uint32_t>(), t, faults); break;
    case 5: run_codec(net_scalar<int64_t>("network i64"), draw_num<int64_t>(), t, faults); break;
    case 6: run_codec(net_scalar<double>("network double"), draw_double(), t, faults); break;
    case 7: run_codec(net_scalar<float>("network float"), (float)draw_double(), t, faults); break;
    case 8: case 9: run_codec(plain<std::string>("string", put_str(), get_str()), draw_text(), t, faults); break;
    case 10: run_codec(plain<std::wstring>("wide string", ser::SerializeString<wchar_t>, ser::DeserializeString<wchar_t>), draw_string<std::wstring>(), t, faults); break;
    case 11: run_codec(plain<std::u16string>("utf-16 string", ser::SerializeString<char16_t>, ser::DeserializeString<char16_t>), draw_string<std::u16string>(), t, faults); break;
    case 12: { using S = std::basic_string<uint8_t>; run_codec(plain<S>("network string", ser::SerializeNetworkString<uint8_t>, ser::DeserializeNetworkString<uint8_t>), draw_string<S>(), t, faults); break; }
    case 13: { using S = std::basic_string<uint16_t>; run_codec(plain<S>("network wide string", ser::SerializeNetworkString<uint16_t>, ser::DeserializeNetworkString<uint16_t>), draw_string<S>(), t, faults); break; }
    case 14: case 15:
    {
      using V = std::vector<std::string>; V v; const size_t n = chance(1, 25) ? 100 + draw(200) : draw(6); for (size_t i = 0; i < n; i++) v.push_back(draw_text());
      const bool net = chance(1, 2);
      run_codec(plain<V>("vector of strings", [=](const V& x, Bytes& b) { return net ? ser::SerializeNetworkVectorLike<std::string>(x, b, put_str()) : ser::SerializeVectorLike<std::string>(x, b, put_str()); },
        [=](const Bytes& b, uint64_t o) { return net ? ser::DeserializeNetworkVectorLike<std::string>(b, o, get_str()) : ser::DeserializeVectorLike<std::string>(b, o, get_str()); }), v, t, faults);
      break;
    }
    case 16: { using V = std::vector<double>; auto c = plain<V>("vector of double", ser::SerializeMemcpyableVectorLike<double, V>, ser::DeserializeMemcpyableVectorLike<double, V>); c.eq = vec_same<V>; run_codec(c, draw_vec<double>(), t, faults); break; }
    case 17: { using V = std::vector<uint8_t>; auto c = plain<V>("vector of bytes", ser::SerializeMemcpyableVectorLike<uint8_t, V>, ser::DeserializeMemcpyableVectorLike<uint8_t, V>); run_codec(c, draw_vec<uint8_t>(40), t, faults); break; }
    case 18: { struct P3 { double x, y; int64_t n; }; using V = std::vector<P3>; V v; const size_t n = draw(5); for (size_t i = 0; i < n; i++) { P3 p; p.x = draw_double(); p.y = 1; p.n = (int64_t)i; v.push_back(p); } auto c = Codec<V>(); c.name = "vector of structs"; c.put = ser::SerializeMemcpyableVectorLike<P3, V>; c.get = ser::DeserializeMemcpyableVectorLike<P3, V>; c.eq = vec_same<V>; run_codec(c, v, t, faults); break; }
    case 19: case 20: { using V = std::vector<double>; auto c = plain<V>("network vector of double", ser::SerializeNetworkMemcpyableVectorLike<double, V>, ser::DeserializeNetworkMemcpyableVectorLike<double, V>); c.eq = vec_same<V>; run_codec(c, draw_vec<double>(), t, faults); break; }
    case 21: { using V = std::vector<uint16_t>; auto c = plain<V>("network vector of u16", ser::SerializeNetworkMemcpyableVectorLike<uint16_t, V>, ser::DeserializeNetworkMemcpyableVectorLike<uint16_t, V>); run_codec(c, draw_vec<uint16_t>(), t, faults); break; }
    case 22: case 23:
    {
      using M = std::map<std::string, std::vector<int32_t>>; using V = std::vector<int32_t>; M m; const size_t n = chance(1, 25) ? 40 + draw(40) : draw(5); for (size_t i = 0; i < n; i++) m[draw_text()] = draw_vec<int32_t>();
      run_codec(map_codec<std::string, V, M>("map", chance(1, 2), put_str(), ser::SerializeMemcpyableVectorLike<int32_t, V>, get_str(), ser::DeserializeMemcpyableVectorLike<int32_t, V>), m, t, faults); break;
    }
    case 24:
    {
      using M = std::unordered_map<int32_t, std::string>; M m; const size_t n = draw(5); for (size_t i = 0; i < n; i++) m[(int32_t)draw(9)] = draw_text();
      auto c = map_codec<int32_t, std::string, M>("unordered map", chance(1, 2), ser::SerializeMemcpyable<int32_t>, put_str(), ser::DeserializeMemcpyable<int32_t>, get_str()); c.canonical = false; run_codec(c, m, t, faults); break;
    }
    case 25:
    {
      using S = std::set<std::string>; S s; const size_t n = chance(1, 25) ? 40 + draw(300) : draw(6); for (size_t i = 0; i < n; i++) s.insert(draw_text()); const bool net = chance(1, 2);
      run_codec(plain<S>("set", [=](const S& x, Bytes& b) { return net ? ser::SerializeNetworkSetLike<std::string, S>(x, b, put_str()) : ser::SerializeSetLike<std::string, S>(x, b, put_str()); },
        [=](const Bytes& b, uint64_t o) { return net ? ser::DeserializeNetworkSetLike<std::string, S>(b, o, get_str()) : ser::DeserializeSetLike<std::string, S>(b, o, get_str()); }), s, t, faults); break;
    }
    case 26:
    {
      using P = std::pair<std::string, int64_t>; const P p(draw_text(), draw_num<int64_t>());
      run_codec(plain<P>("pair", [](const P& x, Bytes& b) { return ser::SerializePair<std::string, int64_t>(x, b, put_str(), ser::SerializeMemcpyable<int64_t>); },
        [](const Bytes& b, uint64_t o) { return ser::DeserializePair<std::string, int64_t>(b, o, get_str(), ser::DeserializeMemcpyable<int64_t>); }), p, t, faults); break;
    }
    case 27: case 28: case 29: { const long r = (long)draw(5), k = (long)draw(5); Eigen::MatrixXd m(r, k); for (long i = 0; i < m.size(); i++) m.data()[i] = draw_double(); run_codec(eigen<Eigen::MatrixXd>("matrix", ser::SerializeMatrixXd, ser::DeserializeMatrixXd), m, t, faults); break; }
    case 30: case 31: { const long r = (long)draw(6); Eigen::VectorXd m(r); for (long i = 0; i < r; i++) m[i] = draw_double(); run_codec(eigen<Eigen::VectorXd>("vector", ser::SerializeVectorXd, ser::DeserializeVectorXd), m, t, faults); break; }
    case 32: run_codec(eigen<Eigen::Vector2d>("2-vector", ser::SerializeVector2d, ser::DeserializeVector2d), draw_fixed<Eigen::Vector2d>(), t, faults); break;
    case 33: run_codec(eigen<Eigen::Vector3d>("3-vector", ser::SerializeVector3d, ser::DeserializeVector3d), draw_fixed<Eigen::Vector3d>(), t, faults); break;
    case 34: run_codec(eigen<Eigen::Vector4d>("4-vector", ser::SerializeVector4d, ser::DeserializeVector4d), draw_fixed<Eigen::Vector4d>(), t, faults); break;
    case 35: { Codec<Eigen::Quaterniond> c; c.name = "quaternion"; c.put = ser::SerializeQuaterniond; c.get = ser::DeserializeQuaterniond; c.eq = [](const Eigen::Quaterniond& a, const Eigen::Quaterniond& b) { return same_bits(a.x(), b.x()) && same_bits(a.y(), b.y()) && same_bits(a.z(), b.z()) && same_bits(a.w(), b.w()); }; run_codec(c, Eigen::Quaterniond(draw_double(), draw_double(), draw_double(), draw_double()), t, faults); break; }
    case 36: { Codec<Isometry3d> c; c.name = "transform"; c.put = ser::SerializeIsometry3d; c.get = ser::DeserializeIsometry3d; c.eq = pose_same; run_codec(c, draw_pose(), t, faults); break; }
    case 37: { using E = simple_graph::GraphEdge; Codec<E> c; c.name = "graph edge"; c.put = E::Serialize; c.get = E::Deserialize; c.eq = edge_same; run_codec(c, draw_edge(1000), t, faults); break; }
    case 38:
    {
      std::vector<simple_graph::GraphEdge> in, out; for (size_t i = draw(4); i > 0; i--) in.push_back(draw_edge(9)); for (size_t i = draw(4); i > 0; i--) out.push_back(draw_edge(9));
      Codec<GNode> c; c.name = "graph node"; c.put = [](const GNode& v, Bytes& b) { return GNode::Serialize(v, b, put_str()); }; c.get = [](const Bytes& b, uint64_t o) { return GNode::Deserialize(b, o, get_str()); }; c.eq = node_same;
      run_codec(c, GNode(draw_text(), in, out), t, faults); break;
    }
    case 39: case 40:
    {
      Codec<G> c; c.name = "graph"; c.put = [](const G& v, Bytes& b) { return G::Serialize(v, b, put_str()); }; c.get = [](const Bytes& b, uint64_t o) { return G::Deserialize(b, o, get_str()); }; c.eq = graph_same;
      c.walk = [](const G& g) { if (!g.CheckGraphLinkage()) fail("malformed", "a decoded graph has dangling edges"); for (int64_t i = 0; i < g.Size(); i++) for (auto& e : g.GetNodeImmutable(i).GetOutEdgesImmutable()) use(g.GetNodeImmutable(e.GetToIndex()).GetValueImmutable()); };
      run_codec(c, draw_graph(), t, faults); break;
    }
    case 41: { std::vector<int64_t> prev; std::vector<double> dist; for (size_t i = draw(7); i > 0; i--) { prev.push_back((int64_t)draw(7)); dist.push_back(draw_double()); }
      using D = simple_graph_search::DijkstrasResult; Codec<D> c; c.name = "search result"; c.put = D::Serialize; c.get = D::Deserialize;
      c.eq = [](const D& a, const D& b) { if (a.Size() != b.Size()) return false; for (int64_t i = 0; i < a.Size(); i++) if (a.GetPreviousIndex(i) != b.GetPreviousIndex(i) || !same_bits(a.GetNodeDistance(i), b.GetNodeDistance(i))) return false; return true; };
      c.walk = [](const D& d) { for (int64_t i = 0; i < d.Size(); i++) { d.GetPreviousIndex(i); d.GetNodeDistance(i); } };
      run_codec(c, D(prev, dist), t, faults); break; }
    case 42: { Codec<RState> c; c.name = "planner state"; c.put = [](const RState& v, Bytes& b) { return RState::Serialize(v, b, put_str()); }; c.get = [](const Bytes& b, uint64_t o) { return RState::Deserialize(b, o, get_str()); }; c.eq = rstate_same; run_codec(c, RState(draw_text(), draw_num<int64_t>(), draw_vec<int64_t>()), t, faults); break; }
    case 43:
    {
      RTree tree; const size_t n = chance(1, 25) ? 20 + draw(80) : draw(7); for (size_t i = 0; i < n; i++) { const std::string s = draw_text(); if (i == 0 || chance(1, 6)) tree.AddNode(s); else tree.AddNodeAndConnect(s, (int64_t)draw(i)); }
      Codec<RTree> c; c.name = "planner tree"; c.put = [](const RTree& v, Bytes& b) { return RTree::Serialize(v, b, put_str()); }; c.get = [](const Bytes& b, uint64_t o) { return RTree::Deserialize(b, o, get_str()); };
      c.eq = [](const RTree& a, const RTree& b) { if (a.Size() != b.Size()) return false; for (int64_t i = 0; i < a.Size(); i++) if (!rstate_same(a.GetNodeImmutable(i), b.GetNodeImmutable(i))) return false; return true; };
      c.walk = [](const RTree& x) { for (int64_t i = 0; i < x.Size(); i++) { const auto& s = x.GetNodeImmutable(i); int64_t p = i; int64_t hops = 0; while (p >= 0) { p = x.GetNodeImmutable(p).GetParentIndex(); if (++hops > x.Size()) fail("malformed", "a decoded tree has a cycle"); } for (int64_t ch : s.GetChildIndices()) use(x.GetNodeImmutable(ch).GetValueImmutable()); } };
      run_codec(c, tree, t, faults); break;
    }
    case 44: { using S = voxel_grid::GridSizes; Codec<S> c; c.name = "grid sizes"; c.put = S::Serialize; c.get = S::Deserialize; c.eq = sizes_same<S>; c.walk = [](const S& s) { if (s.Valid() && (s.TotalCells() <= 0 || !s.IndexInBounds(s.NumXCells() - 1, s.NumYCells() - 1, s.NumZCells() - 1) || s.GetDataIndex(s.NumXCells() - 1, s.NumYCells() - 1, s.NumZCells() - 1) != s.TotalCells() - 1)) fail("malformed", "decoded grid sizes are inconsistent"); }; run_codec(c, chance(1, 9) ? S() : draw_sizes(100), t, faults); break; }
    case 45: if (chance(1, 2)) run_dense<std::string>(t, faults); else run_dense<int32_t>(t, faults); break;
    case 46: if (chance(1, 2)) run_dense<uint8_t>(t, faults); else run_dense<int32_t>(t, faults); break;
    case 47: if (chance(1, 2)) run_sparse<std::string>(t, faults); else run_sparse<int32_t>(t, faults); break;
    case 48: if (chance(1, 2)) run_chunk<std::string>(t, faults); else run_chunk<int32_t>(t, faults); break;
    default: run_base64(t, faults);
  }
}
}  // namespace

namespace sim
{
const Property kProperties[] = {
  {"G02", run_g02, 2000000, kSchedAll | bit(F_ALLOC) | bit(F_OPEN) | bit(F_SHORTWRITE) | bit(F_WRITEERR) | bit(F_READERR) | bit(F_SHORTREAD) | bit(F_EINTR) | bit(F_CLOSEERR) | bit(F_CRASH), false},
  {"G03", run_g03, 40000000, kSchedAll | bit(F_ALLOC), true},
};
const size_t kNumProperties = sizeof kProperties / sizeof kProperties[0];
}
