// A fixed good song used to see whether an instance is still healthy.
#pragma once
#include "gen.h"
inline Bytes probeSong() {
    Track t; t.push_back(evProg(0, 0, 0)); t.push_back(evNote(0, 0, 60, 100)); t.push_back(evNote(0, 9, 38, 100)); t.push_back(evProg(10, 1, 48)); t.push_back(evNote(20, 1, 64, 90)); t.push_back(evBend(30, 1, 9000)); t.push_back(evOff(60, 0, 60)); t.push_back(evOff(70, 1, 64));
    SmfOpt o; o.division = 480; return buildSmf({t}, o);
}
// plays the probe on an instance; returns its samples (empty: refused)
inline Pcm playProbe(Eas &e, int buffers = 24, EAS_RESULT *why = nullptr) {
    Pcm p; EAS_HANDLE s = nullptr; EAS_RESULT r = e.open(probeSong(), &s); if (r == EAS_SUCCESS) { r = EAS_Prepare(e.h, s); if (r != EAS_SUCCESS) EAS_CloseFile(e.h, s); }
    if (why) *why = r; if (r != EAS_SUCCESS) return p;
    if (e.render(&p, buffers) != EAS_SUCCESS) p.clear();
    EAS_CloseFile(e.h, s); return p;
}
inline const Pcm &probeReference() { static Pcm ref = [] { AllocLog *sv = g_alloc; g_alloc = nullptr; Eas e; Pcm p = playProbe(e); e.shutdown(); g_alloc = sv; return p; }(); return ref; }
