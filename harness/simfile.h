// Files for harnesses: simulated ones in the executor, real ones in a scratch directory on replay.
#pragma once
#include <string>
#include <cstdint>
#ifdef SX_SYMBOLIC
struct SxFile { std::string name, data; uint64_t room; };
static SxFile sxf[3]; static int sxfn; static uint64_t sxroom = ~0ull;
extern "C" __attribute__((used)) SxFile* sx_file_lookup(const char* n, bool create) { for (int i = 0; i < sxfn; i++) if (sxf[i].name == n) return &sxf[i]; if (!create) return nullptr; SxFile* f = &sxf[sxfn++]; f->name = n; f->room = sxroom; return f; }
static inline std::string simPath(const char* n) { return n; }
static inline void simPut(const std::string& p, const std::string& d) { SxFile* f = sx_file_lookup(p.c_str(), true); f->data = d; }
static inline std::string simGet(const std::string& p) { SxFile* f = sx_file_lookup(p.c_str(), false); return f ? f->data : std::string(); }
static inline void simRoom(uint64_t n) { sxroom = n; for (int i = 0; i < sxfn; i++) sxf[i].room = n; } // files cannot grow beyond this
#else
#include <cstdio>
#include <cstdlib>
#include <csignal>
#include <sys/resource.h>
#include <unistd.h>
static inline std::string simPath(const char* n) { // in the scratch directory the driver makes
  const char* t = getenv("SX_TMP"); std::string p = std::string(t ? t : ".") + "/sim_" + std::to_string(getpid()) + "_" + n; std::remove(p.c_str()); return p; }
static inline void simPut(const std::string& p, const std::string& d) { FILE* f = fopen(p.c_str(), "wb"); if (!d.empty()) fwrite(d.data(), 1, d.size(), f); fclose(f); }
static inline std::string simGet(const std::string& p) { std::string r; FILE* f = fopen(p.c_str(), "rb"); if (!f) return r; int c; while ((c = fgetc(f)) != EOF) r.push_back((char)c); fclose(f); return r; }
static inline void simRoom(uint64_t n) { signal(SIGXFSZ, SIG_IGN); struct rlimit l; getrlimit(RLIMIT_FSIZE, &l); l.rlim_cur = n == ~0ull ? l.rlim_max : n; setrlimit(RLIMIT_FSIZE, &l); }
#endif
