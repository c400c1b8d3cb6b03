// Under symbolic execution the compressor of the third-party archive library is replaced by a model that stores the bytes
// (a valid stream of stored blocks) and hands them back in two steps; the native replay uses the real one.
#pragma once
#define MINIZ_HEADER_FILE_ONLY 1
#include "Minizip/Source/miniz.c"
#define MODEL extern "C" __attribute__((used, noinline))
MODEL int symx_mz_deflateInit2(mz_stream* s, int, int, int, int, int) { s->state = nullptr; s->total_in = s->total_out = 0; return 0; }
MODEL int symx_mz_deflateEnd(mz_stream*) { return 0; }
MODEL int symx_mz_deflate(mz_stream* s, int) {
  const unsigned char* p = s->next_in; unsigned n = s->avail_in, need = n + 6 + 5 * (n / 65535 + 1); if (need > s->avail_out) return -5; unsigned char* o = s->next_out; *o++ = 0x78; *o++ = 1;
  for (;;) { unsigned k = n < 65535 ? n : 65535; *o++ = n <= 65535; *o++ = k & 255; *o++ = k >> 8; *o++ = ~k & 255; *o++ = (~k >> 8) & 255; memcpy(o, p, k); o += k; p += k; n -= k; if (!n) break; }
  o += 4; s->total_in += s->avail_in; s->avail_in = 0; s->total_out += o - s->next_out; s->avail_out -= o - s->next_out; s->next_out = o; s->next_in = p; return 1;
}
MODEL int symx_mz_inflateInit2(mz_stream* s, int) { s->total_in = s->total_out = 0; s->state = nullptr; return 0; }
MODEL int symx_mz_inflateEnd(mz_stream*) { return 0; }
// reserved holds the number of bytes left in the current block plus one, bit 30 that it is the last
MODEL int symx_mz_inflate(mz_stream* s, int) {
  unsigned budget = s->total_out ? ~0u : s->avail_in / 2 + 1;
  for (;;) {
    unsigned left = s->reserved & 0x3FFFFFFF, last = s->reserved >> 30 & 1;
    if (!s->total_in) { left = 0; last = 0; }
    if (!left) { if (last) return 1; if (s->avail_in < 5 || s->next_in[0] > 1) return -3; last = s->next_in[0]; unsigned k = s->next_in[1] | s->next_in[2] << 8; if ((s->next_in[3] | s->next_in[4] << 8) != (~k & 0xFFFF)) return -3; left = k + 1; s->next_in += 5; s->avail_in -= 5; s->total_in += 5; s->reserved = left | last << 30; }
    unsigned k = left - 1; if (k > s->avail_in) return -3; if (k > s->avail_out) k = s->avail_out; if (k > budget) k = budget;
    memcpy(s->next_out, s->next_in, k); s->next_out += k; s->avail_out -= k; s->total_out += k; s->next_in += k; s->avail_in -= k; s->total_in += k; left -= k; budget -= k;
    if (left == 1) { s->reserved = last << 30; if (last) return 1; continue; }
    s->reserved = left | last << 30; return 0;
  }
}
MODEL mz_ulong symx_mz_crc32(mz_ulong c, const mz_uint8* p, size_t n) { return p ? (c ^ n * 2654435761u) & 0xFFFFFFFF : 0; } // never read back by the code under test
