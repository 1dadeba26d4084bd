// C03: any live MIDI byte stream is consumed safely, under ASan+UBSan.
#include "probe.h"
const char *vh_property = "C03";
static Bytes hostileChunk(Rng &r) {
    int k = r.below(10);
    if (k < 6) return genMidiBytes(r, r.range(1, 30), true);
    if (k == 6) { Bytes b(r.range(1, 400)); for (auto &x : b) x = r.byte(); return b; }
    if (k == 7) { // long sysex, unterminated or cut by a status byte
        Bytes b{0xf0}; if (r.chance(1, 2)) { b.push_back(0x7f); b.push_back(0x7f); b.push_back(r.chance(1, 2) ? 0x0b : 0x04); b.push_back(1); } int n = r.range(0, r.chance(1, 3) ? 3000 : 80); for (int i = 0; i < n; i++) b.push_back(r.below(128)); if (r.chance(1, 2)) b.push_back(0xf7); return b; }
    if (k == 8) { // RPN / data entry storms, bank + program
        Bytes b; int ch = r.below(16); for (int i = r.range(2, 30); i > 0; i--) { static const int cc[] = {6, 38, 98, 99, 100, 101, 0, 32, 64, 120, 121, 123}; b.push_back(0xb0 | ch); b.push_back(r.pick(cc)); b.push_back(r.chance(1, 2) ? r.pick({0, 1, 2, 0x78, 0x79, 127}) : r.below(128)); if (r.chance(1, 4)) { b.push_back(0xc0 | ch); b.push_back(r.below(128)); } if (r.chance(1, 2)) { b.push_back(0x90 | ch); b.push_back(r.below(128)); b.push_back(127); } if (r.chance(1, 2)) { b.push_back(0xe0 | ch); b.push_back(r.pick({0, 127, 64})); b.push_back(r.pick({0, 127, 64})); } } return b; }
    Bytes b; int n = r.range(20, 200); for (int i = 0; i < n; i++) { b.push_back(0x90 | r.below(16)); b.push_back(r.below(128)); b.push_back(r.range(1, 127)); } return b;
}
void vh_case(Ctx &c) {
    Rng &r = c.rng; AllocLog log; log.fill = r.byte(); g_alloc = &log; uint64_t h = 3; std::string tr;
    { Eas e; std::vector<EAS_HANDLE> st; int ns = r.chance(2, 3) ? 1 : r.range(2, 4); for (int i = 0; i < ns; i++) { EAS_HANDLE s = e.stream(); if (s) { st.push_back(s); } else c.violation("open", "live stream %d of 4 is refused", i); }
      bool dls = r.chance(1, 6); /* a loaded bank may legitimately be silent */
      if (dls) { DlsSpec d = genDlsSpec(r, false); EAS_LoadDLSCollection(e.h, r.chance(1, 2) ? st[0] : nullptr, e.file(buildDls(d))->locator()); c.count("dls"); }
      int ops = r.range(3, c.thorough() ? 80 : 30);
      for (int i = 0; i < ops && !c.failed(); i++) {
          EAS_HANDLE s = r.pick(st);
          if (r.chance(3, 5)) {
              Bytes b = hostileChunk(r); h = fnv(b.data(), b.size(), h); if (tr.size() < 300) tr += hexs(b, 40) + " | "; c.count("bytes", b.size()); c.nontrivial = true;
              for (size_t p = 0; p < b.size();) {
                  size_t n = r.chance(1, 3) ? b.size() - p : std::min(b.size() - p, (size_t)r.range(1, 5)); std::unique_ptr<uint8_t[]> q(new uint8_t[n]); memcpy(q.get(), &b[p], n); p += n;
                  EAS_RESULT x = EAS_WriteMIDIStream(e.h, s, q.get(), (EAS_I32)n); c.count("writes"); if (x != EAS_SUCCESS) c.violation("write", "EAS_WriteMIDIStream of %zu bytes returned %ld after %s", n, (long)x, tr.c_str());
                  if (r.chance(1, 12)) { EAS_RESULT y = e.render(nullptr, 1); c.count("buffers"); if (y != EAS_SUCCESS) c.violation("render", "EAS_Render returned %ld", (long)y); }
              }
          } else { int n = r.range(1, 8); EAS_RESULT y = e.render(nullptr, n); c.count("buffers", n); if (y != EAS_SUCCESS) c.violation("render", "EAS_Render returned %ld after %s", (long)y, tr.c_str()); }
          if (r.chance(1, 40) && st.size() > 1) { EAS_CloseMIDIStream(e.h, st.back()); st.pop_back(); EAS_HANDLE n = e.stream(); if (n) st.push_back(n); c.count("reopened"); }
      }
      // a reset must bring every stream back; a fresh stream must sound too
      if (!c.failed()) {
          for (size_t i = 0; i < st.size(); i++) {
              // end any unterminated system exclusive, then GM on, full volume
              e.write(st[i], {0xf7, 0xf0, 0x7e, 0x7f, 0x09, 0x01, 0xf7, 0xf0, 0x7f, 0x7f, 0x04, 0x01, 0x00, 0x7f, 0xf7});
          }
          e.render(nullptr, 6);
          for (size_t i = 0; i < st.size(); i++) {
              Pcm p; e.write(st[i], {0x90, 60, 120}); e.render(&p, 12); c.count("revived"); if (!dls && peak(p) < 300) c.violation("mute-after-reset", "after a GM reset stream %zu plays a note with peak %d only; history %s", i, peak(p), tr.c_str());
              e.write(st[i], {0xb0, 120, 0}); e.render(nullptr, 3);
          }
          if (st.size() == 4) { EAS_CloseMIDIStream(e.h, st.back()); st.pop_back(); }
          EAS_HANDLE f = e.stream(); if (!f) c.violation("fresh", "no fresh stream can be opened"); else { Pcm p; e.write(f, {0x90, 60, 120}); e.render(&p, 12); if (!dls && peak(p) < 300) c.violation("fresh-mute", "a fresh stream plays a note with peak %d only", peak(p)); st.push_back(f); }
      }
      for (auto s : st) if (EAS_CloseMIDIStream(e.h, s) != EAS_SUCCESS) c.violation("close", "closing a live stream fails");
      if (e.shutdown() != EAS_SUCCESS) c.violation("shutdown", "shutdown fails"); }
    if (log.badFree) c.violation("bad-free", "%llu bad frees", (unsigned long long)log.badFree);
    if (log.live) c.violation("leak", "%lld blocks are still allocated after shutdown; history %s", (long long)log.live, tr.c_str());
    g_alloc = nullptr; c.caseHash = h; c.sample = tr.substr(0, 300);
}
