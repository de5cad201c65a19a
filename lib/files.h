// FILE* sources and sinks whose behaviour the harness controls.
#pragma once
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdio.h>
#include <errno.h>
#include <unistd.h>
#include "pbt.h"
#include <string>
struct CookieIn {
    std::string data; size_t pos = 0; bool seekable = true; size_t max_read = (size_t)-1; size_t fail_at = (size_t)-1; bool closed = false; bool seek_fails = false; bool tell_only = false /* the position can be asked, but not moved */; size_t seeks = 0, reads = 0; bool close_fails = false; int closes = 0;
};
static ssize_t cin_read(void* c, char* buf, size_t n) {
    CookieIn* k = (CookieIn*)c; k->reads++;
    if (k->pos >= k->fail_at) { errno = EIO; return -1; }
    size_t lim = k->data.size() < k->fail_at ? k->data.size() : k->fail_at;
    if (k->pos >= lim) return 0;
    size_t m = lim - k->pos; if (m > n) m = n; if (m > k->max_read) m = k->max_read;
    memcpy(buf, k->data.data() + k->pos, m); k->pos += m; return (ssize_t)m;
}
static int cin_seek(void* c, off64_t* off, int whence) {
    CookieIn* k = (CookieIn*)c; k->seeks++;
    if (k->seek_fails && whence != SEEK_CUR) { errno = EIO; return -1; }
    if (k->tell_only && (whence != SEEK_CUR || *off != 0)) { errno = ESPIPE; return -1; }
    int64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (int64_t)k->pos : (int64_t)k->data.size();
    int64_t np = base + *off; if (np < 0) { errno = EINVAL; return -1; }
    k->pos = (size_t)np; *off = np; return 0;
}
static int cin_close(void* c) { CookieIn* k = (CookieIn*)c; k->closed = true; k->closes++; if (k->close_fails) { errno = EIO; return -1; } return 0; }
static inline FILE* open_cookie_in(CookieIn* k, size_t bufsiz) {
    cookie_io_functions_t io; memset(&io, 0, sizeof io); io.read = cin_read; io.seek = k->seekable ? cin_seek : NULL; io.close = cin_close;
    FILE* f = fopencookie(k, "rb", io); if (!f) abort();
    if (bufsiz == 0) setvbuf(f, NULL, _IONBF, 0); else if (bufsiz != 1) setvbuf(f, NULL, _IOFBF, bufsiz);
    return f;
}
struct CookieOut {
    std::string data; size_t fail_at = (size_t)-1; bool closed = false; bool close_fails = false; size_t writes = 0, after_fail = 0; bool failed = false; size_t max_write = (size_t)-1; int closes = 0;
};
static ssize_t cout_write(void* c, const char* buf, size_t n) {
    CookieOut* k = (CookieOut*)c; k->writes++;
    if (k->failed) { k->after_fail++; }
    size_t room = k->data.size() < k->fail_at ? k->fail_at - k->data.size() : 0;
    if (room == 0) { k->failed = true; errno = ENOSPC; return 0; }
    size_t m = n < room ? n : room; if (m > k->max_write) m = k->max_write;
    k->data.append(buf, m); return (ssize_t)m;
}
static int cout_close(void* c) { CookieOut* k = (CookieOut*)c; k->closed = true; k->closes++; if (k->close_fails) { errno = EIO; return -1; } return 0; }
static inline FILE* open_cookie_out(CookieOut* k, size_t bufsiz) {
    cookie_io_functions_t io; memset(&io, 0, sizeof io); io.write = cout_write; io.close = cout_close;
    FILE* f = fopencookie(k, "wb", io); if (!f) abort();
    if (bufsiz == 0) setvbuf(f, NULL, _IONBF, 0); else if (bufsiz != 1) setvbuf(f, NULL, _IOFBF, bufsiz);
    return f;
}
// a private scratch path
static inline std::string scratch_path(const char* tag) {
    const char* d = getenv("VT_SCRATCH"); char b[64]; snprintf(b, sizeof b, "/vt_%s_%d", tag, (int)getpid());
    return std::string(d ? d : "/tmp") + b;
}
static inline void write_file(const std::string& p, const std::string& data) { FILE* f = fopen(p.c_str(), "wb"); if (!f) { perror(p.c_str()); abort(); } if (data.size() && fwrite(data.data(), 1, data.size(), f) != data.size()) abort(); if (fclose(f)) abort(); }
static inline bool read_file(const std::string& p, std::string& out) { FILE* f = fopen(p.c_str(), "rb"); if (!f) return false; char b[4096]; size_t n; out.clear(); while ((n = fread(b, 1, sizeof b, f)) > 0) out.append(b, n); fclose(f); return true; }
