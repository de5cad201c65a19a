// Data longer than 24, 31 and nearly 32 bits can count. Such data is never really stored: a source is one small file
// mapped over and over (written to only at its ends and its middle), a destination is the same with an end of its own,
// and streams and sinks compute and check what passes by.
#pragma once
#include "drv.h"
#include "files.h"
#include <sys/mman.h>
struct Payload { // 'a's with something recognisable in the middle and at the end
    size_t n; int last = -1; explicit Payload(size_t k = 0) : n(k) {} // (last: another last byte)
    unsigned char at(size_t i) const { if (last >= 0 && n - i == 1) return (unsigned char)last; if (n - i <= 5) return (unsigned char)"vwxyz"[5 - (n - i)]; size_t m = n / 2; return (unsigned char)(i >= m && i < m + 3 ? "MID"[i - m] : 'a'); }
    void put(char* p, size_t from, size_t to) const { for (size_t i = from; i < to; i++) p[i - from] = (char)at(i); }
};
static const size_t BIG_DST_TAIL = 65536;
#ifdef __LP64__
static const size_t BIG_MAX = (size_t)0x100000000ull + (8u << 20), BIG_CHUNK = 2u << 20;
static const size_t BIG_SIZES[] = {((size_t)1 << 24) + 300, ((size_t)1 << 31) + 77, (size_t)0xffffffff};
static const int BIG_NSIZES = 3;
static char* big_map(int prot_shared, int fill) {
    int fd = memfd_create("vt", 0); if (fd < 0) return NULL;
    char* chunk = (char*)malloc(BIG_CHUNK); memset(chunk, fill, BIG_CHUNK); bool ok = write(fd, chunk, BIG_CHUNK) == (ssize_t)BIG_CHUNK; free(chunk);
    char* p = (char*)mmap(NULL, BIG_MAX, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (!ok || p == (char*)MAP_FAILED) abort();
    for (size_t o = 0; o < BIG_MAX; o += BIG_CHUNK) if (mmap(p + o, BIG_CHUNK, PROT_READ | PROT_WRITE, MAP_FIXED | MAP_NORESERVE | prot_shared, fd, 0) == MAP_FAILED) abort();
    close(fd); return p;
}
static char* big_src() { static char* p = big_map(MAP_PRIVATE, 'a'); return p; }
static void big_src_reset() { madvise(big_src(), BIG_MAX, MADV_DONTNEED); }
static char* big_dst_region() { static char* p = NULL; if (!p) { p = big_map(MAP_SHARED, 0); if (mmap(p + BIG_MAX - 2 * BIG_DST_TAIL, 2 * BIG_DST_TAIL, PROT_READ | PROT_WRITE, MAP_FIXED | MAP_PRIVATE | MAP_ANONYMOUS, -1, 0) == MAP_FAILED) abort(); } return p; }
#else
static const size_t BIG_MAX = ((size_t)1 << 24) + (1u << 20);
static const size_t BIG_SIZES[] = {((size_t)1 << 24) + 300};
static const int BIG_NSIZES = 1;
static char* big_src() { static char* p = NULL; if (!p) { p = (char*)malloc(BIG_MAX); memset(p, 'a', BIG_MAX); } return p; }
static void big_src_reset() { memset(big_src(), 'a', BIG_MAX); }
static char* big_dst_region() { static char* p = NULL; if (!p) p = (char*)malloc(BIG_MAX); return p; }
#endif
// head, the payload and tail in one block; returns its start
static char* big_message(const Bytes& head, const Payload& pl, const Bytes& tail) {
    big_src_reset(); char* p = big_src(); memcpy(p, head.data(), head.size()); char* d = p + head.size(); size_t n = pl.n, m = n / 2;
    pl.put(d + m, m, m + 3); pl.put(d + n - 5, n - 5, n); memcpy(d + n, tail.data(), tail.size()); return p;
}
// A destination for n bytes: what must hold afterwards is its last 64 kB and the guard behind it.
struct BigDst {
    char* p; size_t n;
    explicit BigDst(size_t k) : n(k) { p = big_dst_region() + BIG_MAX - 64 - k; size_t t = k < BIG_DST_TAIL ? k : BIG_DST_TAIL; memset(p + n - t, 0x5c, t + 64); }
    void guard(const char* what) { for (int i = 0; i < 64; i++) CHECK(p[n + i] == 0x5c, "%s wrote behind a buffer of %zu bytes", what, n); }
    void check(const char* what, const Payload& pl) { size_t t = pl.n < BIG_DST_TAIL ? pl.n : BIG_DST_TAIL - 64; for (size_t i = pl.n - t; i < pl.n; i++) CHECK((unsigned char)p[i] == pl.at(i), "%s of %zu bytes: byte %zu is %02x", what, pl.n, i, (unsigned char)p[i]); }
};
// A stream of head, payload, tail.
struct BigStream {
    Bytes head, tail; Payload pl; uint64_t pos = 0, end = 0; size_t piece = (size_t)-1; size_t calls = 0;
    uint64_t total() const { return head.size() + (uint64_t)pl.n + tail.size(); }
    unsigned char at(uint64_t i) const { return i < head.size() ? (unsigned char)head[(size_t)i] : i < head.size() + (uint64_t)pl.n ? pl.at((size_t)(i - head.size())) : (unsigned char)tail[(size_t)(i - head.size() - pl.n)]; }
    void copy(char* b, uint64_t from, size_t k) const { size_t i = 0;
        if (pl.n < ((size_t)1 << 25)) { // all of it
            memset(b, 'a', k); uint64_t h = head.size(), ends[][2] = {{0, h}, {h + pl.n / 2, h + pl.n / 2 + 3}, {h + pl.n - 5, total()}};
            for (auto& r : ends) for (uint64_t j = r[0] > from ? r[0] : from; j < r[1] && j < from + k; j++) b[j - from] = (char)at(j);
            return; }
        for (; i < k && i < 70000; i++) b[i] = (char)at(from + i); for (size_t j = k > 70000 && k - 70000 > i ? k - 70000 : i; j < k; j++) b[j] = (char)at(from + j); }
    size_t read(char* b, size_t n) { calls++; uint64_t left = end - pos; size_t k = n < piece ? n : piece; if (k > left) k = (size_t)left; copy(b, pos, k); pos += k; return k; }
    // a sink checks that what it gets is the next piece
    void take(const char* b, size_t n) { calls++; CHECK(n <= total() - pos, "%llu bytes were written, expected %llu", (unsigned long long)(pos + n), (unsigned long long)total());
        for (size_t i = 0; i < n; i++) { if (i == 70000 && n > 140000) i = n - 70000; CHECK((unsigned char)b[i] == at(pos + i), "byte %llu of the output is %02x, expected %02x", (unsigned long long)(pos + i), (unsigned char)b[i], at(pos + i)); } pos += n; }
};
static size_t big_fill(mpack_reader_t* r, char* b, size_t n) { return ((BigStream*)mpack_reader_context(r))->read(b, n); }
static void big_skip(mpack_reader_t* r, size_t n) { BigStream* s = (BigStream*)mpack_reader_context(r); if (n > s->end - s->pos) mpack_reader_flag_error(r, mpack_error_io); else s->pos += n; }
static void big_flush(mpack_writer_t* w, const char* p, size_t n) { ((BigStream*)mpack_writer_context(w))->take(p, n); }
static ssize_t big_cread(void* c, char* b, size_t n) { return (ssize_t)((BigStream*)c)->read(b, n); }
static ssize_t big_cwrite(void* c, const char* b, size_t n) { ((BigStream*)c)->take(b, n); return (ssize_t)n; }
static int big_cseek(void* c, off64_t* off, int whence) { BigStream* s = (BigStream*)c; int64_t b = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (int64_t)s->pos : (int64_t)s->end; if (b + *off < 0) { errno = EINVAL; return -1; } *off += b; s->pos = (uint64_t)*off < s->end ? (uint64_t)*off : s->end; return 0; }
static FILE* big_file(BigStream* s, bool out, bool seek) { cookie_io_functions_t io; memset(&io, 0, sizeof io); if (out) io.write = big_cwrite; else io.read = big_cread; if (seek) io.seek = big_cseek; FILE* f = fopencookie(s, out ? "wb" : "rb", io); if (!f) abort(); return f; }
static Bytes be(uint64_t v, int n) { Bytes b; for (int i = 8 * (n - 1); i >= 0; i -= 8) b += (char)(v >> i); return b; }
// the smallest header of that kind
static Bytes big_head(Kind k, uint64_t n, int8_t et = 0, int version = V5) { Value v; (void)v; Bytes b;
    switch (k) {
    case STR: if (n < 32) b += (char)(0xa0 | n); else if (n < 256 && version == V5) b = "\xd9" + be(n, 1); else if (n < 65536) b = "\xda" + be(n, 2); else b = "\xdb" + be(n, 4); break;
    case BIN: if (version != V5) return big_head(STR, n, et, version); if (n < 256) b = "\xc4" + be(n, 1); else if (n < 65536) b = "\xc5" + be(n, 2); else b = "\xc6" + be(n, 4); break;
    case EXT: { if (n == 1 || n == 2 || n == 4 || n == 8 || n == 16) b += (char)(n == 1 ? 0xd4 : n == 2 ? 0xd5 : n == 4 ? 0xd6 : n == 8 ? 0xd7 : 0xd8); else if (n < 256) b = "\xc7" + be(n, 1); else if (n < 65536) b = "\xc8" + be(n, 2); else b = "\xc9" + be(n, 4); b += (char)et; break; }
    case ARR: if (n < 16) b += (char)(0x90 | n); else if (n < 65536) b = "\xdc" + be(n, 2); else b = "\xdd" + be(n, 4); break;
    default: if (n < 16) b += (char)(0x80 | n); else if (n < 65536) b = "\xde" + be(n, 2); else b = "\xdf" + be(n, 4); }
    return b;
}
