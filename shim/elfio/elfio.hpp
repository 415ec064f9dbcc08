// Small stand-in for the ELFIO library (not installed here): enough of its
// interface, written from the ELF specification, to build the code in
// mpact/sim/util that reads and writes ELF files. Little endian only.
#ifndef VERIF_SHIM_ELFIO_HPP_
#define VERIF_SHIM_ELFIO_HPP_

#include <algorithm>
#include <cstdint>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <iterator>
#include <memory>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

#ifndef ELF_ST_BIND
#define ELF_ST_BIND(i) ((i) >> 4)
#define ELF_ST_TYPE(i) ((i)&0xf)
#define ELF_ST_INFO(b, t) (((b) << 4) + ((t)&0xf))
#endif
#ifndef ELF64_R_INFO
#define ELF32_R_SYM(i) ((i) >> 8)
#define ELF32_R_TYPE(i) ((unsigned char)(i))
#define ELF32_R_INFO(s, t) (((s) << 8) + (unsigned char)(t))
#define ELF64_R_SYM(i) ((i) >> 32)
#define ELF64_R_TYPE(i) ((i)&0xffffffffL)
#define ELF64_R_INFO(s, t) \
  ((((int64_t)(s)) << 32) + ((t)&0xffffffffL))
#endif

namespace ELFIO {

using Elf_Half = uint16_t;
using Elf_Word = uint32_t;
using Elf_Sword = int32_t;
using Elf_Xword = uint64_t;
using Elf_Sxword = int64_t;
using Elf32_Addr = uint32_t;
using Elf32_Off = uint32_t;
using Elf64_Addr = uint64_t;
using Elf64_Off = uint64_t;
using Elf32_Word = uint32_t;
using Elf64_Word = uint32_t;

constexpr unsigned char ELFCLASSNONE = 0, ELFCLASS32 = 1, ELFCLASS64 = 2;
constexpr unsigned char ELFDATANONE = 0, ELFDATA2LSB = 1, ELFDATA2MSB = 2;
constexpr unsigned char ELFOSABI_NONE = 0, ELFOSABI_LINUX = 3;
constexpr Elf_Half ET_NONE = 0, ET_REL = 1, ET_EXEC = 2, ET_DYN = 3;
constexpr Elf_Half EM_NONE = 0, EM_386 = 3, EM_X86_64 = 62, EM_RISCV = 243;
constexpr Elf_Word EV_CURRENT = 1;
constexpr Elf_Half SHN_UNDEF = 0, SHN_ABS = 0xfff1, SHN_COMMON = 0xfff2;
constexpr Elf_Word SHT_NULL = 0, SHT_PROGBITS = 1, SHT_SYMTAB = 2,
                   SHT_STRTAB = 3, SHT_RELA = 4, SHT_HASH = 5, SHT_DYNAMIC = 6,
                   SHT_NOTE = 7, SHT_NOBITS = 8, SHT_REL = 9, SHT_DYNSYM = 11;
constexpr Elf_Xword SHF_WRITE = 1, SHF_ALLOC = 2, SHF_EXECINSTR = 4,
                    SHF_INFO_LINK = 0x40;
constexpr Elf_Word PT_NULL = 0, PT_LOAD = 1, PT_DYNAMIC = 2, PT_INTERP = 3,
                   PT_NOTE = 4;
constexpr Elf_Word PF_X = 1, PF_W = 2, PF_R = 4;
constexpr unsigned char STB_LOCAL = 0, STB_GLOBAL = 1, STB_WEAK = 2;
constexpr unsigned char STT_NOTYPE = 0, STT_OBJECT = 1, STT_FUNC = 2,
                        STT_SECTION = 3, STT_FILE = 4;

struct Elf32_Ehdr {
  unsigned char e_ident[16];
  Elf_Half e_type, e_machine;
  Elf_Word e_version;
  Elf32_Addr e_entry;
  Elf32_Off e_phoff, e_shoff;
  Elf_Word e_flags;
  Elf_Half e_ehsize, e_phentsize, e_phnum, e_shentsize, e_shnum, e_shstrndx;
};
struct Elf64_Ehdr {
  unsigned char e_ident[16];
  Elf_Half e_type, e_machine;
  Elf_Word e_version;
  Elf64_Addr e_entry;
  Elf64_Off e_phoff, e_shoff;
  Elf_Word e_flags;
  Elf_Half e_ehsize, e_phentsize, e_phnum, e_shentsize, e_shnum, e_shstrndx;
};
struct Elf32_Shdr {
  Elf_Word sh_name, sh_type, sh_flags;
  Elf32_Addr sh_addr;
  Elf32_Off sh_offset;
  Elf_Word sh_size, sh_link, sh_info, sh_addralign, sh_entsize;
};
struct Elf64_Shdr {
  Elf_Word sh_name, sh_type;
  Elf_Xword sh_flags;
  Elf64_Addr sh_addr;
  Elf64_Off sh_offset;
  Elf_Xword sh_size;
  Elf_Word sh_link, sh_info;
  Elf_Xword sh_addralign, sh_entsize;
};
struct Elf32_Phdr {
  Elf_Word p_type;
  Elf32_Off p_offset;
  Elf32_Addr p_vaddr, p_paddr;
  Elf_Word p_filesz, p_memsz, p_flags, p_align;
};
struct Elf64_Phdr {
  Elf_Word p_type, p_flags;
  Elf64_Off p_offset;
  Elf64_Addr p_vaddr, p_paddr;
  Elf_Xword p_filesz, p_memsz, p_align;
};
struct Elf32_Sym {
  Elf_Word st_name;
  Elf32_Addr st_value;
  Elf_Word st_size;
  unsigned char st_info, st_other;
  Elf_Half st_shndx;
};
struct Elf64_Sym {
  Elf_Word st_name;
  unsigned char st_info, st_other;
  Elf_Half st_shndx;
  Elf64_Addr st_value;
  Elf_Xword st_size;
};
struct Elf32_Rela {
  Elf32_Addr r_offset;
  Elf_Word r_info;
  Elf_Sword r_addend;
};
struct Elf64_Rela {
  Elf64_Addr r_offset;
  Elf_Xword r_info;
  Elf_Sxword r_addend;
};

class section {
 public:
  Elf_Half get_index() const { return index_; }
  const std::string& get_name() const { return name_; }
  void set_name(const std::string& n) { name_ = n; }
#define VERIF_ACC(T, n)            \
  T get_##n() const { return n##_; } \
  void set_##n(T v) { n##_ = v; }
  VERIF_ACC(Elf_Word, type)
  VERIF_ACC(Elf_Xword, flags)
  VERIF_ACC(Elf_Word, info)
  VERIF_ACC(Elf_Word, link)
  VERIF_ACC(Elf_Xword, addr_align)
  VERIF_ACC(Elf_Xword, entry_size)
  VERIF_ACC(Elf64_Addr, address)
  VERIF_ACC(Elf64_Off, offset)
  Elf_Xword get_size() const { return size_; }
  void set_size(Elf_Xword s) { size_ = s; }
  const char* get_data() const { return data_.get(); }
  void set_data(const char* p, Elf_Xword size) {
    std::unique_ptr<char[]> n(new char[size + 1]());
    if (size) std::memcpy(n.get(), p, size);
    data_ = std::move(n);
    size_ = size;
  }
  void set_data(const std::string& s) { set_data(s.data(), s.size()); }
  void append_data(const char* p, Elf_Xword size) {
    Elf_Xword old = data_ ? size_ : 0;
    std::unique_ptr<char[]> n(new char[old + size + 1]());
    if (old) std::memcpy(n.get(), data_.get(), old);
    if (size) std::memcpy(n.get() + old, p, size);
    data_ = std::move(n);
    size_ = old + size;
  }
  void append_data(const std::string& s) { append_data(s.data(), s.size()); }

 private:
  friend class elfio;
  friend class elfio_sections;
  Elf_Half index_ = 0;
  std::string name_;
  Elf_Word type_ = 0, info_ = 0, link_ = 0, name_off_ = 0;
  Elf_Xword flags_ = 0, addr_align_ = 0, entry_size_ = 0, size_ = 0;
  Elf64_Addr address_ = 0;
  Elf64_Off offset_ = 0;
  std::unique_ptr<char[]> data_;
};

class segment {
 public:
  Elf_Half get_index() const { return index_; }
  VERIF_ACC(Elf_Word, type)
  VERIF_ACC(Elf_Word, flags)
  VERIF_ACC(Elf_Xword, align)
  VERIF_ACC(Elf64_Addr, virtual_address)
  VERIF_ACC(Elf64_Addr, physical_address)
  VERIF_ACC(Elf_Xword, file_size)
  VERIF_ACC(Elf_Xword, memory_size)
  VERIF_ACC(Elf64_Off, offset)
  const char* get_data() const { return data_.get(); }
  Elf_Half add_section_index(Elf_Half index, Elf_Xword addr_align) {
    sections_.push_back(index);
    if (addr_align > align_) align_ = addr_align;
    return static_cast<Elf_Half>(sections_.size());
  }
  Elf_Half add_section(section* s, Elf_Xword a) {
    return add_section_index(s->get_index(), a);
  }
  Elf_Half get_sections_num() const {
    return static_cast<Elf_Half>(sections_.size());
  }

 private:
  friend class elfio;
  friend class elfio_segments;
  Elf_Half index_ = 0;
  Elf_Word type_ = 0, flags_ = 0;
  Elf_Xword align_ = 0, file_size_ = 0, memory_size_ = 0;
  Elf64_Addr virtual_address_ = 0, physical_address_ = 0;
  Elf64_Off offset_ = 0;
  std::unique_ptr<char[]> data_;
  std::vector<Elf_Half> sections_;
};
#undef VERIF_ACC

class elfio_sections {
 public:
  Elf_Half size() const { return static_cast<Elf_Half>(v_.size()); }
  section* operator[](unsigned int i) const {
    return i < v_.size() ? v_[i].get() : nullptr;
  }
  section* operator[](const std::string& name) const {
    for (auto& s : v_)
      if (s->get_name() == name) return s.get();
    return nullptr;
  }
  section* operator[](const char* name) const {
    return (*this)[std::string(name)];
  }
  section* add(const std::string& name) {
    v_.push_back(std::make_unique<section>());
    v_.back()->index_ = static_cast<Elf_Half>(v_.size() - 1);
    v_.back()->set_name(name);
    return v_.back().get();
  }
  auto begin() { return v_.begin(); }
  auto end() { return v_.end(); }
  auto begin() const { return v_.cbegin(); }
  auto end() const { return v_.cend(); }

 private:
  friend class elfio;
  std::vector<std::unique_ptr<section>> v_;
};

class elfio_segments {
 public:
  Elf_Half size() const { return static_cast<Elf_Half>(v_.size()); }
  segment* operator[](unsigned int i) const {
    return i < v_.size() ? v_[i].get() : nullptr;
  }
  segment* add() {
    v_.push_back(std::make_unique<segment>());
    v_.back()->index_ = static_cast<Elf_Half>(v_.size() - 1);
    return v_.back().get();
  }
  auto begin() { return v_.begin(); }
  auto end() { return v_.end(); }
  auto begin() const { return v_.cbegin(); }
  auto end() const { return v_.cend(); }

 private:
  friend class elfio;
  std::vector<std::unique_ptr<segment>> v_;
};

class elfio {
 public:
  elfio_sections sections;
  elfio_segments segments;

  elfio() { create(ELFCLASS32, ELFDATA2LSB); }
  elfio(const elfio&) = delete;
  elfio& operator=(const elfio&) = delete;

  void create(unsigned char file_class, unsigned char) {
    class_ = file_class;
    osabi_ = 0;
    type_ = machine_ = 0;
    flags_ = 0;
    entry_ = 0;
    sections.v_.clear();
    segments.v_.clear();
    sections.add("");
    auto* s = sections.add(".shstrtab");
    s->set_type(SHT_STRTAB);
    s->set_addr_align(1);
    shstrndx_ = s->get_index();
  }

  bool load(const std::string& file_name) {
    std::ifstream in(file_name, std::ios::binary);
    if (!in) return false;
    return load(in);
  }
  bool load(std::istream& in) {
    std::string d((std::istreambuf_iterator<char>(in)),
                  std::istreambuf_iterator<char>());
    if (d.size() < 16 || std::memcmp(d.data(), "\177ELF", 4) != 0) return false;
    if (d[5] != ELFDATA2LSB) return false;
    sections.v_.clear();
    segments.v_.clear();
    class_ = d[4];
    if (class_ == ELFCLASS64) return LoadT<Elf64_Ehdr, Elf64_Shdr, Elf64_Phdr>(d);
    if (class_ == ELFCLASS32) return LoadT<Elf32_Ehdr, Elf32_Shdr, Elf32_Phdr>(d);
    return false;
  }
  std::string validate() const { return ""; }

  bool save(const std::string& file_name) {
    std::ofstream out(file_name, std::ios::binary);
    return out ? save(out) : false;
  }
  bool save(std::ostream& out) {
    return class_ == ELFCLASS64
               ? SaveT<Elf64_Ehdr, Elf64_Shdr, Elf64_Phdr>(out)
               : SaveT<Elf32_Ehdr, Elf32_Shdr, Elf32_Phdr>(out);
  }

  unsigned char get_class() const { return class_; }
  unsigned char get_encoding() const { return ELFDATA2LSB; }
  unsigned char get_os_abi() const { return osabi_; }
  void set_os_abi(unsigned char v) { osabi_ = v; }
  Elf_Half get_type() const { return type_; }
  void set_type(Elf_Half v) { type_ = v; }
  Elf_Half get_machine() const { return machine_; }
  void set_machine(Elf_Half v) { machine_ = v; }
  Elf_Word get_flags() const { return flags_; }
  void set_flags(Elf_Word v) { flags_ = v; }
  Elf64_Addr get_entry() const { return entry_; }
  void set_entry(Elf64_Addr v) { entry_ = v; }

 private:
  template <typename E, typename S, typename P>
  bool LoadT(const std::string& d) {
    E eh;
    if (d.size() < sizeof(eh)) return false;
    std::memcpy(&eh, d.data(), sizeof(eh));
    osabi_ = eh.e_ident[7];
    type_ = eh.e_type;
    machine_ = eh.e_machine;
    flags_ = eh.e_flags;
    entry_ = eh.e_entry;
    shstrndx_ = eh.e_shstrndx;
    for (unsigned i = 0; i < eh.e_shnum; i++) {
      S sh;
      uint64_t off = eh.e_shoff + uint64_t{i} * eh.e_shentsize;
      if (off + sizeof(sh) > d.size()) return false;
      std::memcpy(&sh, d.data() + off, sizeof(sh));
      auto* s = sections.add("");
      s->name_off_ = sh.sh_name;
      s->type_ = sh.sh_type;
      s->flags_ = sh.sh_flags;
      s->address_ = sh.sh_addr;
      s->offset_ = sh.sh_offset;
      s->size_ = sh.sh_size;
      s->link_ = sh.sh_link;
      s->info_ = sh.sh_info;
      s->addr_align_ = sh.sh_addralign;
      s->entry_size_ = sh.sh_entsize;
      if (sh.sh_type != SHT_NOBITS && sh.sh_type != SHT_NULL) {
        if (uint64_t{sh.sh_offset} + sh.sh_size > d.size()) return false;
        s->set_data(d.data() + sh.sh_offset, sh.sh_size);
      }
    }
    if (auto* str = sections[shstrndx_]; str != nullptr && str->get_data()) {
      for (auto& s : sections.v_)
        if (s->name_off_ < str->get_size())
          s->name_ = str->get_data() + s->name_off_;
    }
    for (unsigned i = 0; i < eh.e_phnum; i++) {
      P ph;
      uint64_t off = eh.e_phoff + uint64_t{i} * eh.e_phentsize;
      if (off + sizeof(ph) > d.size()) return false;
      std::memcpy(&ph, d.data() + off, sizeof(ph));
      auto* s = segments.add();
      s->type_ = ph.p_type;
      s->flags_ = ph.p_flags;
      s->offset_ = ph.p_offset;
      s->virtual_address_ = ph.p_vaddr;
      s->physical_address_ = ph.p_paddr;
      s->file_size_ = ph.p_filesz;
      s->memory_size_ = ph.p_memsz;
      s->align_ = ph.p_align;
      if (uint64_t{ph.p_offset} + ph.p_filesz > d.size()) return false;
      if (ph.p_filesz) {
        s->data_.reset(new char[ph.p_filesz + 1]());
        std::memcpy(s->data_.get(), d.data() + ph.p_offset, ph.p_filesz);
      }
    }
    return true;
  }

  template <typename E, typename S, typename P>
  bool SaveT(std::ostream& out) {
    // Section names.
    std::string names(1, '\0');
    for (auto& s : sections.v_) {
      if (s->name_.empty()) {
        s->name_off_ = 0;
      } else {
        s->name_off_ = static_cast<Elf_Word>(names.size());
        names += s->name_;
        names.push_back('\0');
      }
    }
    sections[shstrndx_]->set_data(names.data(), names.size());
    std::string body(sizeof(E) + segments.size() * sizeof(P), '\0');
    std::vector<bool> placed(sections.size(), false);
    auto put = [&](section* s) {
      s->offset_ = body.size();
      placed[s->index_] = true;
      if (s->type_ != SHT_NOBITS && s->data_)
        body.append(s->data_.get(), s->size_);
    };
    for (auto& g : segments.v_) {
      // File offset congruent to the virtual address modulo the alignment.
      uint64_t align = g->align_ ? g->align_ : 1;
      uint64_t want = g->virtual_address_ % align;
      while (body.size() % align != want) body.push_back('\0');
      g->offset_ = body.size();
      uint64_t addr = g->virtual_address_;
      uint64_t file = 0, mem = 0;
      for (auto idx : g->sections_) {
        auto* s = sections[idx];
        uint64_t a = s->addr_align_ ? s->addr_align_ : 1;
        while (addr % a) {
          addr++;
          if (s->type_ != SHT_NOBITS) body.push_back('\0');
        }
        put(s);
        s->address_ = addr;
        addr += s->size_;
        mem = addr - g->virtual_address_;
        if (s->type_ != SHT_NOBITS) file = mem;
      }
      g->file_size_ = file;
      g->memory_size_ = mem;
    }
    for (auto& s : sections.v_) {
      if (placed[s->index_] || s->type_ == SHT_NULL) continue;
      uint64_t a = s->addr_align_ ? s->addr_align_ : 1;
      while (body.size() % a) body.push_back('\0');
      put(s.get());
    }
    while (body.size() % 8) body.push_back('\0');
    E eh{};
    std::memcpy(eh.e_ident, "\177ELF", 4);
    eh.e_ident[4] = class_;
    eh.e_ident[5] = ELFDATA2LSB;
    eh.e_ident[6] = 1;
    eh.e_ident[7] = osabi_;
    eh.e_type = type_;
    eh.e_machine = machine_;
    eh.e_version = 1;
    eh.e_entry = entry_;
    eh.e_flags = flags_;
    eh.e_ehsize = sizeof(E);
    eh.e_phentsize = sizeof(P);
    eh.e_phnum = segments.size();
    eh.e_phoff = segments.size() ? sizeof(E) : 0;
    eh.e_shentsize = sizeof(S);
    eh.e_shnum = sections.size();
    eh.e_shoff = body.size();
    eh.e_shstrndx = shstrndx_;
    std::memcpy(&body[0], &eh, sizeof(eh));
    for (unsigned i = 0; i < segments.size(); i++) {
      auto* g = segments[i];
      P ph{};
      ph.p_type = g->type_;
      ph.p_flags = g->flags_;
      ph.p_offset = g->offset_;
      ph.p_vaddr = g->virtual_address_;
      ph.p_paddr = g->physical_address_;
      ph.p_filesz = g->file_size_;
      ph.p_memsz = g->memory_size_;
      ph.p_align = g->align_;
      std::memcpy(&body[sizeof(E) + i * sizeof(P)], &ph, sizeof(ph));
    }
    for (auto& s : sections.v_) {
      S sh{};
      sh.sh_name = s->name_off_;
      sh.sh_type = s->type_;
      sh.sh_flags = s->flags_;
      sh.sh_addr = s->address_;
      sh.sh_offset = s->offset_;
      sh.sh_size = s->size_;
      sh.sh_link = s->link_;
      sh.sh_info = s->info_;
      sh.sh_addralign = s->addr_align_;
      sh.sh_entsize = s->entry_size_;
      body.append(reinterpret_cast<const char*>(&sh), sizeof(sh));
    }
    out.write(body.data(), body.size());
    return static_cast<bool>(out);
  }

  unsigned char class_ = ELFCLASS32, osabi_ = 0;
  Elf_Half type_ = 0, machine_ = 0, shstrndx_ = 0;
  Elf_Word flags_ = 0;
  Elf64_Addr entry_ = 0;
};

class string_section_accessor {
 public:
  explicit string_section_accessor(section* s) : s_(s) {}
  const char* get_string(Elf_Word index) const {
    if (index < s_->get_size() && s_->get_data()) return s_->get_data() + index;
    return nullptr;
  }
  Elf_Word add_string(const char* str) {
    if (s_->get_size() == 0) s_->append_data("\0", 1);
    Elf_Word pos = static_cast<Elf_Word>(s_->get_size());
    s_->append_data(str, std::strlen(str) + 1);
    return pos;
  }
  Elf_Word add_string(const std::string& s) { return add_string(s.c_str()); }

 private:
  section* s_;
};

class symbol_section_accessor {
 public:
  symbol_section_accessor(const elfio& e, section* s) : e_(&e), s_(s) {}
  Elf_Xword get_symbols_num() const {
    size_t es = Size();
    return (s_->get_data() != nullptr) ? s_->get_size() / es : 0;
  }
  bool get_symbol(Elf_Xword index, std::string& name, Elf64_Addr& value,
                  Elf_Xword& size, unsigned char& bind, unsigned char& type,
                  Elf_Half& section_index, unsigned char& other) const {
    if (index >= get_symbols_num()) return false;
    auto go = [&](auto sym) {
      std::memcpy(&sym, s_->get_data() + index * sizeof(sym), sizeof(sym));
      section* str = e_->sections[s_->get_link()];
      name.clear();
      if (str != nullptr) {
        const char* p = string_section_accessor(str).get_string(sym.st_name);
        if (p != nullptr) name = p;
      }
      value = sym.st_value;
      size = sym.st_size;
      bind = ELF_ST_BIND(sym.st_info);
      type = ELF_ST_TYPE(sym.st_info);
      section_index = sym.st_shndx;
      other = sym.st_other;
    };
    if (e_->get_class() == ELFCLASS64) go(Elf64_Sym{});
    else go(Elf32_Sym{});
    return true;
  }
  bool get_symbol(const std::string& name, Elf64_Addr& value, Elf_Xword& size,
                  unsigned char& bind, unsigned char& type,
                  Elf_Half& section_index, unsigned char& other) const {
    for (Elf_Xword i = 0; i < get_symbols_num(); i++) {
      std::string n;
      Elf64_Addr v;
      Elf_Xword sz;
      unsigned char b, t, o;
      Elf_Half si;
      if (get_symbol(i, n, v, sz, b, t, si, o) && n == name) {
        value = v;
        size = sz;
        bind = b;
        type = t;
        section_index = si;
        other = o;
        return true;
      }
    }
    return false;
  }
  Elf_Word add_symbol(Elf_Word name, Elf64_Addr value, Elf_Xword size,
                      unsigned char info, unsigned char other, Elf_Half shndx) {
    auto go = [&](auto sym) {
      if (s_->get_size() == 0) {
        std::memset(&sym, 0, sizeof(sym));
        s_->append_data(reinterpret_cast<const char*>(&sym), sizeof(sym));
      }
      std::memset(&sym, 0, sizeof(sym));
      sym.st_name = name;
      sym.st_value = value;
      sym.st_size = size;
      sym.st_info = info;
      sym.st_other = other;
      sym.st_shndx = shndx;
      s_->append_data(reinterpret_cast<const char*>(&sym), sizeof(sym));
      return static_cast<Elf_Word>(s_->get_size() / sizeof(sym) - 1);
    };
    return e_->get_class() == ELFCLASS64 ? go(Elf64_Sym{}) : go(Elf32_Sym{});
  }
  Elf_Word add_symbol(Elf_Word name, Elf64_Addr value, Elf_Xword size,
                      unsigned char bind, unsigned char type,
                      unsigned char other, Elf_Half shndx) {
    return add_symbol(name, value, size, ELF_ST_INFO(bind, type), other, shndx);
  }
  Elf_Word add_symbol(string_section_accessor& str, const char* name,
                      Elf64_Addr value, Elf_Xword size, unsigned char bind,
                      unsigned char type, unsigned char other, Elf_Half shndx) {
    Elf_Word n = str.add_string(name);
    return add_symbol(n, value, size, bind, type, other, shndx);
  }
  // Places the local symbols first; returns the index of the first non-local.
  Elf_Xword arrange_local_symbols(
      std::function<void(Elf_Xword first, Elf_Xword second)> func = nullptr) {
    auto go = [&](auto sym) -> Elf_Xword {
      using T = decltype(sym);
      size_t n = s_->get_size() / sizeof(T);
      std::vector<T> v(n);
      if (n) std::memcpy(v.data(), s_->get_data(), n * sizeof(T));
      auto local = [](const T& s) {
        return ELF_ST_BIND(s.st_info) == STB_LOCAL;
      };
      size_t first = 1, cur = 1;
      for (;;) {
        while (first < n && local(v[first])) first++;
        cur = first + 1;
        while (cur < n && !local(v[cur])) cur++;
        if (first >= n || cur >= n) break;
        if (func) func(first, cur);
        std::swap(v[first], v[cur]);
      }
      if (n) s_->set_data(reinterpret_cast<const char*>(v.data()),
                          n * sizeof(T));
      s_->set_info(static_cast<Elf_Word>(first));
      return first;
    };
    return e_->get_class() == ELFCLASS64 ? go(Elf64_Sym{}) : go(Elf32_Sym{});
  }

 private:
  size_t Size() const {
    return e_->get_class() == ELFCLASS64 ? sizeof(Elf64_Sym)
                                         : sizeof(Elf32_Sym);
  }
  const elfio* e_;
  section* s_;
};

}  // namespace ELFIO
#endif
