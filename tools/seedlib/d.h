/* helpers of the demonstrations */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "eas.h"
#include "eas_reverb.h"
#include "eas_chorus.h"
typedef struct { const unsigned char *p; int n; EAS_FILE f; } MF;
static int mf_read(void *h, void *buf, int off, int n) { MF *m = (MF *)h; if (off < 0 || n < 0) return -1; if (off > m->n) off = m->n; if (off + n > m->n) n = m->n - off; memcpy(buf, m->p + off, n); return n; }
static int mf_size(void *h) { return ((MF *)h)->n; }
static MF *mf(const void *p, int n) { MF *m = calloc(1, sizeof *m); unsigned char *c = malloc(n + 1); memcpy(c, p, n); m->p = c; m->n = n; m->f.handle = m; m->f.readAt = mf_read; m->f.size = mf_size; return m; }
static EAS_DATA_HANDLE E; static const S_EAS_LIB_CONFIG *C; static int BUFN, CH;
static void init(EAS_DATA_HANDLE *e) { C = EAS_Config(); BUFN = C->mixBufferSize; CH = C->numChannels; if (EAS_Init(e) != EAS_SUCCESS) { puts("init failed"); exit(3); } }
/* renders n buffers into out (may be NULL); returns the last error */
static EAS_RESULT rend(EAS_DATA_HANDLE e, short *out, int n) { static short t[8192]; EAS_RESULT r, bad = EAS_SUCCESS; EAS_I32 g; for (int i = 0; i < n; i++) { r = EAS_Render(e, t, BUFN, &g); if (r != EAS_SUCCESS) bad = r; if (out) memcpy(out + (size_t)i * BUFN * CH, t, sizeof(short) * BUFN * CH); } return bad; }
static int pk(const short *p, long n) { int m = 0; for (long i = 0; i < n; i++) if (abs(p[i]) > m) m = abs(p[i]); return m; }
static EAS_HANDLE song(EAS_DATA_HANDLE e, const void *p, int n) { EAS_HANDLE s; EAS_RESULT r; if ((r = EAS_OpenFile(e, &mf(p, n)->f, &s)) != EAS_SUCCESS) { printf("open %ld\n", (long)r); exit(3); } if ((r = EAS_Prepare(e, s)) != EAS_SUCCESS) { printf("prepare %ld\n", (long)r); exit(3); } return s; }
static EAS_HANDLE live(EAS_DATA_HANDLE e) { EAS_HANDLE s; if (EAS_OpenMIDIStream(e, &s, NULL) != EAS_SUCCESS) { puts("stream"); exit(3); } return s; }
static EAS_RESULT msg(EAS_DATA_HANDLE e, EAS_HANDLE s, int a, int b, int c) { EAS_U8 m[3] = {a, b, c}; return EAS_WriteMIDIStream(e, s, m, (a & 0xe0) == 0xc0 ? 2 : 3); }
static EAS_STATE st(EAS_DATA_HANDLE e, EAS_HANDLE s) { EAS_STATE x = -1; EAS_State(e, s, &x); return x; }
static EAS_I32 loc(EAS_DATA_HANDLE e, EAS_HANDLE s) { EAS_I32 x = -1; EAS_GetLocation(e, s, &x); return x; }
/* song building: tracks of raw bytes */
typedef struct { unsigned char b[65536]; int n; } B;
static void u8(B *b, int v) { b->b[b->n++] = v; }
static void raw(B *b, const void *p, int n) { memcpy(b->b + b->n, p, n); b->n += n; }
static void be32(B *b, unsigned v) { u8(b, v >> 24); u8(b, v >> 16); u8(b, v >> 8); u8(b, v); }
static void be16(B *b, unsigned v) { u8(b, v >> 8); u8(b, v); }
static void vl(B *b, unsigned v) { unsigned char t[5]; int n = 0; do { t[n++] = v & 127; v >>= 7; } while (v); while (n--) u8(b, t[n] | (n ? 128 : 0)); }
static void hdr(B *b, int tracks, int div) { b->n = 0; raw(b, "MThd", 4); be32(b, 6); be16(b, tracks > 1); be16(b, tracks); be16(b, div); }
static void trk(B *b, const B *t) { raw(b, "MTrk", 4); be32(b, t->n + 4); raw(b, t->b, t->n); raw(b, "\0\xff\x2f\0", 4); }
static void ev(B *t, unsigned d, int a, int b, int c) { vl(t, d); u8(t, a); u8(t, b); if ((a & 0xe0) != 0xc0) u8(t, c); }
#define FAIL(...) do { printf(__VA_ARGS__); putchar('\n'); exit(1); } while (0)
