// libFuzzer driver for the real redsea: its main() (renamed with -Dmain=redsea_main) is called with an
// argument vector and a standard input made from the fuzzer's bytes.  With RV_RENDER=<dir> the
// arguments, the input and the table files are written there instead, to be tried on the ordinary
// program, which alone decides.
#include <fcntl.h>
#include <getopt.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <string>
#include <vector>

int redsea_main(int argc, char** argv);

namespace {

struct In {
  const uint8_t* p;
  size_t n;
  unsigned u8() { return n ? (n--, *p++) : 0u; }
  unsigned u16() { unsigned a = u8(); return a << 8 | u8(); }
};

struct Grp { unsigned stream; bool has[4]; unsigned b[4]; };

std::vector<Grp> groups(In in) {
  std::vector<Grp> v;
  const unsigned pi = in.u16() | 1u;
  for (int i = 0; i < 3; i++) v.push_back({0, {true, true, true, true}, {pi, 0xF800, pi, 0}});
  while (in.n >= 7 && v.size() < 600) {
    Grp g{};
    const unsigned f = in.u8();
    g.stream = f >> 4 & 3u;
    const bool own = (f & 0x40u) || g.stream;
    g.b[0] = own ? in.u16() : pi;
    for (int k = 1; k < 4; k++) g.b[k] = in.u16();
    for (int k = 0; k < 4; k++) g.has[k] = !((f & 0x80u) && (f >> k & 1u));
    v.push_back(g);
  }
  return v;
}

std::string hex(const std::vector<Grp>& v) {
  std::string s;
  char t[8];
  for (const Grp& g : v) {
    if (g.stream) s += "#S" + std::to_string(g.stream) + " ";
    for (int k = 0; k < 4; k++) {
      if (g.has[k]) { snprintf(t, sizeof t, "%04X", g.b[k]); s += t; } else s += "----";
      s += k < 3 ? ' ' : '\n';
    }
  }
  return s;
}

// 26-bit blocks with checkwords; a missing block is inverted
std::string bits(const std::vector<Grp>& v) {
  static const unsigned off[5] = {0x0FC, 0x198, 0x168, 0x1B4, 0x350};
  std::string s;
  for (const Grp& g : v) {
    if (g.stream) continue;
    for (int k = 0; k < 4; k++) {
      unsigned r = g.b[k] << 10;
      for (int i = 25; i >= 10; i--) if (r >> i & 1u) r ^= 0x5B9u << (i - 10);
      unsigned w = g.b[k] << 10 | ((r & 0x3FFu) ^ off[k == 2 && (g.b[1] & 0x800u) ? 4 : k]);
      if (!g.has[k]) w ^= 0x2AAAAAAu;
      for (int i = 25; i >= 0; i--) s += w >> i & 1u ? '1' : '0';
    }
  }
  return s + "\n";
}

const char* const kFiles[] = {"lt/README.DAT", "lt/LOCATIONDATASETS.DAT", "lt/NAMES.DAT", "lt/ROADS.DAT",
                              "lt/SEGMENTS.DAT", "lt/POINTS.DAT", "lt/POFFSETS.DAT",
                              "lt/ADMINISTRATIVEAREA.DAT", "service_key_table.csv"};

void put(const std::string& name, const std::string& s) {
  const int fd = open(name.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
  if (fd < 0 || write(fd, s.data(), s.size()) != static_cast<ssize_t>(s.size())) _exit(90);
  close(fd);
}

}  // namespace

extern "C" int LLVMFuzzerInitialize(int*, char***) {
  const char* d = getenv("RV_FUZZ_CWD");
  if (d && chdir(d) == 0) mkdir("lt", 0755);
  return 0;
}

extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
  if (size < 2) return -1;
  In in{data, size};
  static const char* const force = getenv("RV_FUZZ_MODE");
  const unsigned mode = (force ? static_cast<unsigned>(atoi(force)) : in.p[0]) % 5u;
  in.u8();
  const unsigned o = in.u8();
  std::vector<std::string> a = {"redsea", "-i", mode == 2 ? "tef" : mode == 3 ? "bits" : "hex"};
  std::string text;
  const std::string rest(reinterpret_cast<const char*>(in.p), in.n);
  switch (mode) {
    case 0: text = hex(groups(in)); break;
    case 3: text = bits(groups(in)); break;
    case 4: {
      size_t b = 0;
      for (const char* f : kFiles) {
        const size_t e = b <= rest.size() ? rest.find('\x1e', b) : std::string::npos;
        put(f, b > rest.size() ? std::string() : rest.substr(b, e == std::string::npos ? e : e - b));
        b = e == std::string::npos ? rest.size() + 1 : e + 1;
      }
      In g{in.p + std::min(b, rest.size()), rest.size() - std::min(b, rest.size())};
      text = hex(groups(g));
      a.insert(a.end(), {"-l", "lt"});
      break;
    }
    default: text = rest;
  }
  if (o & 1u) a.push_back("-p");
  if (o & 2u) a.push_back("-R");
  if (o & 4u) a.push_back("-E");
  if (o & 8u) a.push_back("-u");
  if ((o & 16u) && mode != 2 && mode != 3) a.push_back("-s");
  if ((o & 0xE0u) == 0x20u) a.push_back("--no-fec");
  if ((o & 0xE0u) == 0x40u) a.push_back("-x");

  if (const char* d = getenv("RV_RENDER")) {
    std::string s;
    for (size_t i = 1; i < a.size(); i++) s += a[i] + "\n";
    put(std::string(d) + "/args", s);
    put(std::string(d) + "/stdin", text);
    return 0;
  }

  static const int fd = [] {
    const int f = memfd_create("stdin", 0);
    dup2(f, 0);
    const int n = open("/dev/null", O_WRONLY);
    dup2(n, 1);
    return f;
  }();
  if (ftruncate(fd, 0) || pwrite(fd, text.data(), text.size(), 0) != static_cast<ssize_t>(text.size())) return -1;
  lseek(0, 0, SEEK_SET);
  rewind(stdin);
  std::cin.clear();
  optind = 0;
  std::vector<std::vector<char>> st;
  std::vector<char*> av;
  for (const std::string& s : a) { st.emplace_back(s.begin(), s.end()); st.back().push_back(0); }
  for (auto& s : st) av.push_back(s.data());
  av.push_back(nullptr);
  redsea_main(static_cast<int>(a.size()), av.data());
  return 0;
}
