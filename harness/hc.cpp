#include "hc.hpp"
#include <cstdarg>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

namespace hc {
Stats stats;
static std::string distinct_path;  // where the hashes of what was distinct go, to be united over the processes of a check
std::string hex(const std::uint8_t *p, std::size_t n, std::size_t max) {
    static const char *d = "0123456789abcdef";
    std::string r;
    for (std::size_t i = 0; i < n && i < max; ++i) { r += d[p[i] >> 4]; r += d[p[i] & 15]; }
    if (n > max) r += "..(" + std::to_string(n) + " bytes)";
    return r;
}
std::string jstr(const std::string &s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += char(c);
    }
    return r + "\"";
}
Args::Args(int argc, char **argv) {
    if (argc > 1) cmd = argv[1];
    for (int i = 2; i < argc; ++i) {
        std::string a = argv[i];
        if (a.rfind("--", 0) != 0) broken("bad argument " + a);
        a = a.substr(2);
        if (i + 1 < argc && std::string(argv[i + 1]).rfind("--", 0) != 0) kv[a] = argv[++i];
        else kv[a] = "1";
    }
    if (has("crumb")) crumb_open(str("crumb"));
    distinct_path = str("distinct");
}
static char *crumb_mem;
static const std::size_t CRUMB = 1 << 16;
void crumb_open(const std::string &path) {
    int fd = open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || ftruncate(fd, CRUMB)) broken("crumb file");
    auto m = mmap(nullptr, CRUMB, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
    if (m == MAP_FAILED) broken("crumb map");
    crumb_mem = static_cast<char *>(m);
}
void crumb(const std::string &t) {
    if (!crumb_mem) return;
    std::size_t n = t.size() < CRUMB - 9 ? t.size() : CRUMB - 9;
    std::memcpy(crumb_mem + 8, t.data(), n);
    crumb_mem[8 + n] = 0;
    ++*reinterpret_cast<volatile std::uint64_t *>(crumb_mem);
}
static std::string vfmt(const char *f, va_list ap) {
    va_list a2;
    va_copy(a2, ap);
    int n = vsnprintf(nullptr, 0, f, a2);
    va_end(a2);
    std::string s(n + 1, 0);
    vsnprintf(s.data(), n + 1, f, ap);
    s.resize(n);
    return s;
}
void crumbf(const char *f, ...) { va_list ap; va_start(ap, f); auto s = vfmt(f, ap); va_end(ap); crumb(s); }
std::string fmt(const char *f, ...) { va_list ap; va_start(ap, f); auto s = vfmt(f, ap); va_end(ap); return s; }
void Stats::print() const {
    std::string o = "RESULT {";
    bool first = true;
    for (auto &[k, v] : n) { o += (first ? "" : ", ") + jstr(k) + ": " + std::to_string(v); first = false; }
    for (auto &[k, v] : distinct) { o += (first ? "" : ", ") + jstr("distinct_" + k) + ": " + std::to_string(v.size()); first = false; }
    o += std::string(first ? "" : ", ") + "\"samples\": [";
    for (std::size_t i = 0; i < samples.size(); ++i) o += (i ? ", " : "") + jstr(samples[i]);
    o += "]}\n";
    for (auto &[k, v] : distinct) {
        if (distinct_path.empty()) break;
        std::vector<std::uint64_t> w(v.begin(), v.end());
        if (FILE *f = fopen((distinct_path + "." + k).c_str(), "wb")) { fwrite(w.data(), 8, w.size(), f); fclose(f); }
    }
    fputs(o.c_str(), stdout);
    fflush(stdout);
}
void fail(const std::string &key, const std::string &detail) {
    printf("FAIL {\"key\": %s, \"detail\": %s, \"crumb\": %s}\n", jstr(key).c_str(), jstr(detail.substr(0, 20000)).c_str(), jstr(crumb_mem ? std::string(crumb_mem + 8).substr(0, 8000) : "").c_str());
    fflush(stdout);
    _exit(3);
}
void broken(const std::string &why) {
    printf("BROKEN %s\n", jstr(why).c_str());
    fflush(stdout);
    _exit(4);
}
}  // namespace hc
