// Directories and files for harnesses: simulated in the executor, real ones in a scratch directory on replay.
// Names are absolute below fsRoot(), or relative to fsRoot()/cwd.
#pragma once
#include <string>
#include <cstdint>
#ifdef SX_SYMBOLIC
struct SxFile { std::string name, data; uint64_t room; };
static SxFile sxf[16]; static int sxfn; static std::string sxd[16]; static int sxdn; static const char* const FS = "/R";
static int sxDir(const std::string& n) { for (int i = 0; i < sxdn; i++) if (sxd[i] == n) return i; return -1; }
static SxFile* sxFile(const std::string& n) { for (int i = 0; i < sxfn; i++) if (sxf[i].name == n) return &sxf[i]; return nullptr; }
// the absolute name without . and .., empty when a directory on the way does not exist
static std::string sxNorm(const std::string& p) {
  if (p.empty()) return ""; std::string r = p[0] == '/' ? "" : std::string(FS) + "/cwd"; size_t i = 0;
  while (i < p.size()) { if (p[i] == '/') { i++; continue; } size_t e = i; while (e < p.size() && p[e] != '/') e++; std::string c = p.substr(i, e - i); i = e;
    if (!r.empty() && sxDir(r) < 0) return ""; if (c == ".") continue; if (c == "..") { size_t k = r.rfind('/'); r.resize(k == std::string::npos ? 0 : k); continue; } r += "/" + c; }
  if (p.back() == '/' && sxDir(r) < 0) return ""; return r; }
extern "C" __attribute__((used)) int sx_file_kind(const char* n) { std::string r = sxNorm(n); if (r.empty()) return n[0] == '/' ? 2 : 0; return sxDir(r) >= 0 ? 2 : sxFile(r) ? 1 : 0; }
extern "C" __attribute__((used)) SxFile* sx_file_lookup(const char* n, bool create) { std::string r = sxNorm(n); if (r.empty() || sxDir(r) >= 0) return nullptr; SxFile* f = sxFile(r); if (f || !create) return f; f = &sxf[sxfn++]; f->name = r; f->room = ~0ull; return f; }
static inline std::string fsRoot() { sxfn = 0; sxdn = 2; sxd[0] = FS; sxd[1] = std::string(FS) + "/cwd"; return FS; }
static inline void fsMkdir(const std::string& p) { if (sxDir(p) < 0) sxd[sxdn++] = p; }
static inline void fsPut(const std::string& p, const std::string& d) { SxFile* f = sx_file_lookup(p.c_str(), true); if (f) f->data = d; }
static inline std::string fsGet(const std::string& p) { SxFile* f = sx_file_lookup(p.c_str(), false); return f ? f->data : std::string(); }
#else
#include <cstdio>
#include <cstdlib>
#include <sys/stat.h>
#include <unistd.h>
static inline std::string fsRoot() { static std::string base; if (base.empty()) { char b[4096]; base = getcwd(b, sizeof b) ? b : "."; } std::string r = base + "/fs_" + std::to_string(getpid()); mkdir(r.c_str(), 0700); mkdir((r + "/cwd").c_str(), 0700); if (chdir((r + "/cwd").c_str())) abort(); return r; }
static inline void fsMkdir(const std::string& p) { mkdir(p.c_str(), 0700); }
static inline void fsPut(const std::string& p, const std::string& d) { FILE* f = fopen(p.c_str(), "wb"); if (!f) return; if (!d.empty()) fwrite(d.data(), 1, d.size(), f); fclose(f); }
static inline std::string fsGet(const std::string& p) { std::string r; FILE* f = fopen(p.c_str(), "rb"); if (!f) return r; int c; while ((c = fgetc(f)) != EOF) r.push_back((char)c); fclose(f); return r; }
#endif
