// Writes ELF files for the harnesses, independently of any ELF library.
#ifndef VERIF_ELF_MAKE_H_
#define VERIF_ELF_MAKE_H_
#include <sys/mman.h>
#include <unistd.h>

#include <cstdint>
#include <string>
#include <vector>
namespace elf {
struct Seg {
  uint32_t type = 1, flags = 4;
  uint64_t vaddr = 0, paddr = 0, memsz = 0;
  std::string data;
};
struct Sym {
  std::string name;
  uint64_t value = 0, size = 0;
  uint8_t bind = 1, type = 2;
};
struct Elf {
  bool bits64 = true;
  uint64_t entry = 0;
  std::vector<Seg> segs;
  std::vector<std::vector<Sym>> symtabs;
  std::string out;
  void u(uint64_t v, int n) { for (int i = 0; i < n; ++i) out += (char)(v >> (8 * i)); }
  void w(uint64_t v) { u(v, bits64 ? 8 : 4); }
  std::string bytes() {
    out.clear();
    int eh = bits64 ? 64 : 52, ph = bits64 ? 56 : 32, sh = bits64 ? 64 : 40, sy = bits64 ? 24 : 16;
    std::string body;
    uint64_t start = eh + segs.size() * ph;
    std::vector<uint64_t> off;
    for (auto& s : segs) off.push_back(start + body.size()), body += s.data;
    struct Sec { uint32_t name, type, link; uint64_t off, size, ent; };
    std::vector<Sec> secs{{0, 0, 0, 0, 0, 0}};
    std::string names("\0.symtab\0.strtab\0.shstrtab\0", 27);
    auto with = [&](auto f) {  // collects what f writes
      std::string keep = out;
      out.clear();
      f();
      std::string r = out;
      out = keep;
      return r;
    };
    for (auto& t : symtabs) {
      std::string str(1, '\0');
      std::string tab = with([&] {
        out.append(sy, '\0');
        for (auto& s : t) {
          uint32_t n = str.size();
          str += s.name;
          str += '\0';
          uint8_t info = s.bind << 4 | s.type;
          if (bits64) u(n, 4), u(info, 1), u(0, 1), u(1, 2), u(s.value, 8), u(s.size, 8);
          else u(n, 4), u(s.value, 4), u(s.size, 4), u(info, 1), u(0, 1), u(1, 2);
        }
      });
      uint32_t me = secs.size();
      secs.push_back({1, 2, me + 1, start + body.size(), tab.size(), (uint64_t)sy});
      body += tab;
      secs.push_back({9, 3, 0, start + body.size(), str.size(), 0});
      body += str;
    }
    secs.push_back({17, 3, 0, start + body.size(), names.size(), 0});
    body += names;
    out = std::string("\177ELF", 4);
    u(bits64 ? 2 : 1, 1), u(1, 1), u(1, 1);
    out.append(9, '\0');
    u(2, 2), u(243, 2), u(1, 4), w(entry), w(segs.empty() ? 0 : eh), w(start + body.size()), u(0, 4);
    u(eh, 2), u(ph, 2), u(segs.size(), 2), u(sh, 2), u(secs.size(), 2), u(secs.size() - 1, 2);
    for (size_t i = 0; i < segs.size(); ++i) {
      auto& s = segs[i];
      u(s.type, 4);
      if (bits64) u(s.flags, 4);
      w(off[i]), w(s.vaddr), w(s.paddr), w(s.data.size()), w(s.memsz);
      if (!bits64) u(s.flags, 4);
      w(1);
    }
    out += body;
    for (auto& s : secs) u(s.name, 4), u(s.type, 4), w(0), w(0), w(s.off), w(s.size), u(s.link, 4), u(0, 4), w(1), w(s.ent);
    return out;
  }
  // The name of a file that exists until the object is gone.
  int fd = -1;
  ~Elf() { if (fd >= 0) close(fd); }
  std::string file() { return file(bytes()); }
  std::string file(const std::string& b) {
    if (fd < 0) fd = memfd_create("elf", 0);
    if (ftruncate(fd, 0) != 0) return "";
    if (pwrite(fd, b.data(), b.size(), 0) != (ssize_t)b.size()) return "";
    return "/proc/self/fd/" + std::to_string(fd);
  }
};
}  // namespace elf
#endif
