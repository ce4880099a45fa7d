#ifndef VERIF_ELFIO
#define VERIF_ELFIO
#include <cstring>
#include <fstream>
#include <iostream>
#include <memory>
#include <string>
#include <type_traits>
#include <vector>

#include "elf_types.hpp"

namespace ELFIO {

class elfio;

class section {
 public:
  Elf_Half get_index() const { return index_; }
  std::string get_name() const { return name_; }
  void set_name(const std::string& n) { name_ = n; }
#define VERIF_FIELD(T, n) \
  T get_##n() const { return n##_; } \
  void set_##n(T v) { n##_ = v; }
  VERIF_FIELD(Elf_Word, type)
  VERIF_FIELD(Elf_Xword, flags)
  VERIF_FIELD(Elf_Word, info)
  VERIF_FIELD(Elf_Word, link)
  VERIF_FIELD(Elf_Xword, addr_align)
  VERIF_FIELD(Elf_Xword, entry_size)
  Elf64_Addr get_address() const { return address_; }
  void set_address(Elf64_Addr a) {
    address_ = a;
    address_set_ = true;
  }
  Elf_Xword get_size() const { return size_; }
  void set_size(Elf_Xword s) { size_ = s; }
  Elf64_Off get_offset() const { return offset_; }
  const char* get_data() const { return data_.empty() ? nullptr : data_.data(); }
  void set_data(const char* p, Elf_Xword n) {
    if (type_ == SHT_NOBITS) return;
    data_.assign(p, p + n);
    size_ = n;
  }
  void set_data(const std::string& s) { set_data(s.data(), s.size()); }
  void append_data(const char* p, Elf_Xword n) {
    if (type_ == SHT_NOBITS) return;
    std::vector<char> in(p, p + n);
    data_.insert(data_.end(), in.begin(), in.end());
    size_ = data_.size();
  }
  void append_data(const std::string& s) { append_data(s.data(), s.size()); }

 private:
  friend class elfio;
  Elf_Half index_ = 0;
  std::string name_;
  Elf_Word type_ = SHT_NULL, info_ = 0, link_ = 0, name_off_ = 0;
  Elf_Xword flags_ = 0, addr_align_ = 0, entry_size_ = 0, size_ = 0;
  Elf64_Addr address_ = 0;
  Elf64_Off offset_ = 0;
  bool address_set_ = false;
  std::vector<char> data_;
};

class segment {
 public:
  Elf_Half get_index() const { return index_; }
  VERIF_FIELD(Elf_Word, type)
  VERIF_FIELD(Elf_Word, flags)
  VERIF_FIELD(Elf_Xword, align)
  VERIF_FIELD(Elf64_Addr, virtual_address)
  VERIF_FIELD(Elf64_Addr, physical_address)
  VERIF_FIELD(Elf_Xword, file_size)
  VERIF_FIELD(Elf_Xword, memory_size)
#undef VERIF_FIELD
  Elf64_Off get_offset() const { return offset_; }
  const char* get_data() const { return data_.empty() ? nullptr : data_.data(); }
  Elf_Half add_section_index(Elf_Half i, Elf_Xword align) {
    sections_.push_back(i);
    if (align > align_) align_ = align;
    return sections_.size();
  }
  Elf_Half get_sections_num() const { return sections_.size(); }
  Elf_Half get_section_index_at(Elf_Half n) const { return sections_.at(n); }

 private:
  friend class elfio;
  Elf_Half index_ = 0;
  Elf_Word type_ = PT_NULL, flags_ = 0;
  Elf_Xword align_ = 0, file_size_ = 0, memory_size_ = 0;
  Elf64_Addr virtual_address_ = 0, physical_address_ = 0;
  Elf64_Off offset_ = 0;
  std::vector<Elf_Half> sections_;
  std::vector<char> data_;
};

class elfio {
 public:
  elfio() : sections(this), segments(this) { create(ELFCLASS32, ELFDATA2LSB); }
  elfio(const elfio&) = delete;

  void create(unsigned char cls, unsigned char enc) {
    cls_ = cls;
    enc_ = enc;
    type_ = machine_ = 0;
    entry_ = 0;
    os_abi_ = abi_version_ = 0;
    flags_ = 0;
    sections.v_.clear();
    segments.v_.clear();
    NewSection("")->type_ = SHT_NULL;
    auto* s = NewSection(".shstrtab");
    s->set_type(SHT_STRTAB);
    s->set_addr_align(1);
    shstrndx_ = 1;
    ok_ = true;
  }

  bool load(const std::string& name) {
    std::ifstream f(name, std::ios::in | std::ios::binary);
    if (!f) return false;
    return load(f);
  }
  bool load(std::istream& is) {
    sections.v_.clear();
    segments.v_.clear();
    ok_ = false;
    in_.assign(std::istreambuf_iterator<char>(is), std::istreambuf_iterator<char>());
    if (in_.size() < 16 || memcmp(in_.data(), "\177ELF", 4) != 0) return false;
    cls_ = in_[4];
    enc_ = in_[5];
    if (cls_ != ELFCLASS32 && cls_ != ELFCLASS64) return false;
    if (enc_ != ELFDATA2LSB && enc_ != ELFDATA2MSB) return false;
    os_abi_ = in_[7];
    abi_version_ = in_[8];
    bool b = cls_ == ELFCLASS64;
    if (in_.size() < (b ? 64u : 52u)) return false;
    type_ = U(16, 2);
    machine_ = U(18, 2);
    entry_ = U(24, b ? 8 : 4);
    uint64_t phoff = b ? U(32, 8) : U(28, 4), shoff = b ? U(40, 8) : U(32, 4);
    flags_ = U(b ? 48 : 36, 4);
    size_t p = b ? 54 : 42;
    unsigned phsize = U(p, 2), phnum = U(p + 2, 2), shsize = U(p + 4, 2), shnum = U(p + 6, 2);
    shstrndx_ = U(p + 8, 2);
    if ((shnum > 0 && shsize < (b ? 64u : 40u)) || (phnum > 0 && phsize < (b ? 56u : 32u))) {
      return false;
    }
    for (unsigned i = 0; i < shnum; i++) {
      uint64_t o = shoff + static_cast<uint64_t>(i) * shsize;
      auto s = std::make_unique<section>();
      s->index_ = i;
      s->name_off_ = U(o, 4);
      s->type_ = U(o + 4, 4);
      s->flags_ = b ? U(o + 8, 8) : U(o + 8, 4);
      s->address_ = b ? U(o + 16, 8) : U(o + 12, 4);
      s->offset_ = b ? U(o + 24, 8) : U(o + 16, 4);
      s->size_ = b ? U(o + 32, 8) : U(o + 20, 4);
      s->link_ = U(o + (b ? 40 : 24), 4);
      s->info_ = U(o + (b ? 44 : 28), 4);
      s->addr_align_ = b ? U(o + 48, 8) : U(o + 32, 4);
      s->entry_size_ = b ? U(o + 56, 8) : U(o + 36, 4);
      s->address_set_ = true;
      if (s->type_ != SHT_NULL && s->type_ != SHT_NOBITS) s->data_ = Bytes(s->offset_, s->size_);
      sections.v_.push_back(std::move(s));
    }
    if (shstrndx_ != 0 && shstrndx_ < sections.v_.size()) {
      auto& t = sections.v_[shstrndx_]->data_;
      for (auto& s : sections.v_) {
        if (s->name_off_ < t.size()) {
          s->name_ = std::string(t.data() + s->name_off_,
                                 strnlen(t.data() + s->name_off_, t.size() - s->name_off_));
        }
      }
    }
    for (unsigned i = 0; i < phnum; i++) {
      uint64_t o = phoff + static_cast<uint64_t>(i) * phsize;
      auto s = std::make_unique<segment>();
      s->index_ = i;
      s->type_ = U(o, 4);
      s->flags_ = U(o + (b ? 4 : 24), 4);
      s->offset_ = b ? U(o + 8, 8) : U(o + 4, 4);
      s->virtual_address_ = b ? U(o + 16, 8) : U(o + 8, 4);
      s->physical_address_ = b ? U(o + 24, 8) : U(o + 12, 4);
      s->file_size_ = b ? U(o + 32, 8) : U(o + 16, 4);
      s->memory_size_ = b ? U(o + 40, 8) : U(o + 20, 4);
      s->align_ = b ? U(o + 48, 8) : U(o + 28, 4);
      if (s->type_ != PT_NULL && s->file_size_ != 0) {
        if (s->offset_ + s->file_size_ > in_.size()) return false;
        s->data_ = Bytes(s->offset_, s->file_size_);
      }
      segments.v_.push_back(std::move(s));
    }
    ok_ = true;
    return true;
  }

  bool save(const std::string& name) {
    std::ofstream f(name, std::ios::out | std::ios::binary);
    return f && save(f);
  }
  bool save(std::ostream& os) {
    if (!ok_ || os.fail()) return false;
    bool b = cls_ == ELFCLASS64;
    auto& names = *sections.v_[shstrndx_];
    names.set_data(std::string(1, '\0'));
    for (auto& s : sections.v_) {
      s->name_off_ = s->name_.empty() ? 0 : names.data_.size();
      if (!s->name_.empty()) names.append_data(s->name_.c_str(), s->name_.size() + 1);
    }
    uint64_t pos = b ? 64 : 52;
    uint64_t phoff = segments.v_.empty() ? 0 : pos;
    pos += segments.v_.size() * (b ? 56 : 32);
    std::vector<bool> done(sections.v_.size());
    for (auto& g : segments.v_) {
      uint64_t align = g->align_ > 0 ? g->align_ : 1;
      uint64_t begin = pos;
      if (!g->sections_.empty()) {
        // The offset and the virtual address are congruent.
        uint64_t want = g->virtual_address_ % align, is = pos % align;
        pos += (align + want - is) % align;
        begin = pos;
      }
      uint64_t mem = 0, file = 0;
      for (auto i : g->sections_) {
        auto& s = *sections.v_.at(i);
        uint64_t pad = 0;
        if (!done[i] && s.address_set_) {
          uint64_t req = s.address_ - g->virtual_address_, cur = pos - begin;
          if (req < cur) return false;
          pad = req - cur;
        } else if (!done[i]) {
          uint64_t a = s.addr_align_ == 0 ? 1 : s.addr_align_;
          pad = (a - pos % a) % a;
        } else {
          pad = s.offset_ - begin - file;
        }
        mem += s.size_ + pad;
        if (s.type_ != SHT_NOBITS) file += s.size_ + pad;
        if (done[i]) continue;
        pos += pad;
        if (!s.address_set_) s.set_address(g->virtual_address_ + pos - begin);
        if (s.index_ != 0) s.offset_ = pos;
        if (s.type_ != SHT_NOBITS) pos += s.size_;
        done[i] = true;
      }
      g->offset_ = begin;
      g->file_size_ = file;
      g->memory_size_ = mem;
    }
    for (auto& s : sections.v_) {
      if (done[s->index_]) continue;
      uint64_t a = s->addr_align_ > 1 ? s->addr_align_ : 1;
      pos = (pos + a - 1) / a * a;
      if (s->index_ != 0) s->offset_ = pos;
      if (s->type_ != SHT_NOBITS && s->type_ != SHT_NULL) pos += s->size_;
    }
    uint64_t shoff = (pos + 15) / 16 * 16;
    out_.assign(shoff + sections.v_.size() * (b ? 64 : 40), 0);
    memcpy(out_.data(), "\177ELF", 4);
    out_[4] = cls_;
    out_[5] = enc_;
    out_[6] = EV_CURRENT;
    out_[7] = os_abi_;
    out_[8] = abi_version_;
    W(16, 2, type_);
    W(18, 2, machine_);
    W(20, 4, EV_CURRENT);
    W(24, b ? 8 : 4, entry_);
    W(b ? 32 : 28, b ? 8 : 4, phoff);
    W(b ? 40 : 32, b ? 8 : 4, shoff);
    W(b ? 48 : 36, 4, flags_);
    size_t p = b ? 52 : 40;
    W(p, 2, b ? 64 : 52);
    W(p + 2, 2, b ? 56 : 32);
    W(p + 4, 2, segments.v_.size());
    W(p + 6, 2, b ? 64 : 40);
    W(p + 8, 2, sections.v_.size());
    W(p + 10, 2, shstrndx_);
    uint64_t o = phoff;
    for (auto& g : segments.v_) {
      W(o, 4, g->type_);
      W(o + (b ? 4 : 24), 4, g->flags_);
      W(o + (b ? 8 : 4), b ? 8 : 4, g->offset_);
      W(o + (b ? 16 : 8), b ? 8 : 4, g->virtual_address_);
      W(o + (b ? 24 : 12), b ? 8 : 4, g->physical_address_);
      W(o + (b ? 32 : 16), b ? 8 : 4, g->file_size_);
      W(o + (b ? 40 : 20), b ? 8 : 4, g->memory_size_);
      W(o + (b ? 48 : 28), b ? 8 : 4, g->align_);
      o += b ? 56 : 32;
    }
    o = shoff;
    for (auto& s : sections.v_) {
      W(o, 4, s->name_off_);
      W(o + 4, 4, s->type_);
      W(o + 8, b ? 8 : 4, s->flags_);
      W(o + (b ? 16 : 12), b ? 8 : 4, s->address_);
      W(o + (b ? 24 : 16), b ? 8 : 4, s->offset_);
      W(o + (b ? 32 : 20), b ? 8 : 4, s->size_);
      W(o + (b ? 40 : 24), 4, s->link_);
      W(o + (b ? 44 : 28), 4, s->info_);
      W(o + (b ? 48 : 32), b ? 8 : 4, s->addr_align_);
      W(o + (b ? 56 : 36), b ? 8 : 4, s->entry_size_);
      o += b ? 64 : 40;
      if (s->type_ != SHT_NOBITS && s->type_ != SHT_NULL && !s->data_.empty()) {
        memcpy(&out_[s->offset_], s->data_.data(), s->data_.size());
      }
    }
    os.write(out_.data(), out_.size());
    return !os.fail();
  }

  std::string validate() const {
    std::string errors;
    // Sections that overlap in the file.
    for (size_t i = 0; i < sections.v_.size(); i++) {
      for (size_t j = i + 1; j < sections.v_.size(); j++) {
        auto &a = *sections.v_[i], &b = *sections.v_[j];
        if (a.type_ == SHT_NOBITS || b.type_ == SHT_NOBITS || a.size_ == 0 || b.size_ == 0 ||
            a.offset_ == 0 || b.offset_ == 0) {
          continue;
        }
        if (a.offset_ <= b.offset_ + b.size_ - 1 && b.offset_ <= a.offset_ + a.size_ - 1) {
          errors += "Sections " + a.name_ + " and " + b.name_ + " overlap in file\n";
        }
      }
    }
    return errors;
  }

  unsigned char get_class() const { return cls_; }
  unsigned char get_encoding() const { return enc_; }
  Elf_Half get_type() const { return type_; }
  void set_type(Elf_Half t) { type_ = t; }
  Elf_Half get_machine() const { return machine_; }
  void set_machine(Elf_Half m) { machine_ = m; }
  unsigned char get_os_abi() const { return os_abi_; }
  void set_os_abi(unsigned char v) { os_abi_ = v; }
  Elf_Word get_flags() const { return flags_; }
  void set_flags(Elf_Word v) { flags_ = v; }
  Elf64_Addr get_entry() const { return entry_; }
  void set_entry(Elf64_Addr e) { entry_ = e; }

  class Sections {
   public:
    explicit Sections(elfio* p) : p_(p) {}
    Elf_Half size() const { return v_.size(); }
    section* operator[](unsigned i) const { return i < v_.size() ? v_[i].get() : nullptr; }
    section* operator[](const std::string& n) const {
      for (auto& s : v_) {
        if (s->get_name() == n) return s.get();
      }
      return nullptr;
    }
    section* operator[](const char* n) const { return (*this)[std::string(n)]; }
    section* add(const std::string& n) { return p_->NewSection(n); }
    auto begin() { return v_.begin(); }
    auto end() { return v_.end(); }
    auto begin() const { return v_.cbegin(); }
    auto end() const { return v_.cend(); }

   private:
    friend class elfio;
    elfio* p_;
    std::vector<std::unique_ptr<section>> v_;
  };
  class Segments {
   public:
    explicit Segments(elfio* p) : p_(p) {}
    Elf_Half size() const { return v_.size(); }
    segment* operator[](unsigned i) const { return i < v_.size() ? v_[i].get() : nullptr; }
    segment* add() {
      v_.push_back(std::make_unique<segment>());
      v_.back()->index_ = v_.size() - 1;
      return v_.back().get();
    }
    auto begin() { return v_.begin(); }
    auto end() { return v_.end(); }
    auto begin() const { return v_.cbegin(); }
    auto end() const { return v_.cend(); }

   private:
    friend class elfio;
    elfio* p_;
    std::vector<std::unique_ptr<segment>> v_;
  };
  Sections sections;
  Segments segments;

 private:
  section* NewSection(const std::string& n) {
    sections.v_.push_back(std::make_unique<section>());
    auto* s = sections.v_.back().get();
    s->index_ = sections.v_.size() - 1;
    s->name_ = n;
    return s;
  }
  uint64_t U(uint64_t at, int n) const {
    uint64_t v = 0;
    if (at > in_.size() || in_.size() - at < static_cast<size_t>(n)) return 0;
    for (int i = 0; i < n; i++) {
      int k = enc_ == ELFDATA2LSB ? n - 1 - i : i;
      v = v << 8 | static_cast<unsigned char>(in_[at + k]);
    }
    return v;
  }
  void W(uint64_t at, int n, uint64_t v) {
    for (int i = 0; i < n; i++) {
      out_[at + (enc_ == ELFDATA2LSB ? i : n - 1 - i)] = v & 0xff;
      v >>= 8;
    }
  }
  std::vector<char> Bytes(uint64_t at, uint64_t n) const {
    if (at > in_.size() || in_.size() - at < n) return {};
    return std::vector<char>(in_.begin() + at, in_.begin() + at + n);
  }
  unsigned char cls_ = 1, enc_ = 1, os_abi_ = 0, abi_version_ = 0;
  Elf_Half type_ = 0, machine_ = 0, shstrndx_ = 0;
  Elf_Word flags_ = 0;
  Elf64_Addr entry_ = 0;
  bool ok_ = false;
  std::vector<char> in_, out_;
};

class string_section_accessor {
 public:
  explicit string_section_accessor(section* s) : s_(s) {}
  const char* get_string(Elf_Word i) const {
    if (s_ == nullptr || i >= s_->get_size() || s_->get_data() == nullptr) return nullptr;
    return s_->get_data() + i;
  }
  Elf_Word add_string(const char* str) {
    if (s_->get_size() == 0) s_->append_data(std::string(1, '\0'));
    Elf_Word at = s_->get_size();
    s_->append_data(str, strlen(str) + 1);
    return at;
  }
  Elf_Word add_string(const std::string& s) { return add_string(s.c_str()); }

 private:
  section* s_;
};

template <class S>
class symbol_section_accessor_template {
 public:
  symbol_section_accessor_template(const elfio& e, S* s) : e_(e), s_(s) {}
  Elf_Xword get_symbols_num() const {
    return s_->get_entry_size() != 0 && s_->get_size() != 0 ? s_->get_size() / s_->get_entry_size()
                                                            : 0;
  }
  bool get_symbol(Elf_Xword i, std::string& name, Elf64_Addr& value, Elf_Xword& size,
                  unsigned char& bind, unsigned char& type, Elf_Half& shndx,
                  unsigned char& other) const {
    if (i >= get_symbols_num()) return false;
    const char* p = s_->get_data();
    if (p == nullptr) return false;
    p += i * s_->get_entry_size();
    bool msb = e_.get_encoding() == ELFDATA2MSB;
    auto u = [&](int at, int n) {
      uint64_t v = 0;
      for (int k = 0; k < n; k++) {
        v = v << 8 | static_cast<unsigned char>(p[at + (msb ? k : n - 1 - k)]);
      }
      return v;
    };
    bool b = e_.get_class() == ELFCLASS64;
    string_section_accessor str(e_.sections[s_->get_link()]);
    const char* n = str.get_string(u(0, 4));
    if (n != nullptr) name = n;
    value = b ? u(8, 8) : u(4, 4);
    size = b ? u(16, 8) : u(8, 4);
    unsigned char info = u(b ? 4 : 12, 1);
    bind = ELF_ST_BIND(info);
    type = ELF_ST_TYPE(info);
    other = u(b ? 5 : 13, 1);
    shndx = u(b ? 6 : 14, 2);
    return true;
  }
  bool get_symbol(const std::string& want, Elf64_Addr& value, Elf_Xword& size,
                  unsigned char& bind, unsigned char& type, Elf_Half& shndx,
                  unsigned char& other) const {
    for (Elf_Xword i = 0; i < get_symbols_num(); i++) {
      std::string name;
      if (get_symbol(i, name, value, size, bind, type, shndx, other) && name == want) return true;
    }
    return false;
  }
  Elf_Word add_symbol(Elf_Word name, Elf64_Addr value, Elf_Xword size, unsigned char info,
                      unsigned char other, Elf_Half shndx) {
    if (s_->get_size() == 0) Add(0, 0, 0, 0, 0, 0);
    return Add(name, value, size, info, other, shndx);
  }
  Elf_Word add_symbol(string_section_accessor& str, const char* name, Elf64_Addr value,
                      Elf_Xword size, unsigned char bind, unsigned char type,
                      unsigned char other, Elf_Half shndx) {
    return add_symbol(str.add_string(name), value, size, ELF_ST_INFO(bind, type), other, shndx);
  }
  template <typename F = std::nullptr_t>
  Elf_Xword arrange_local_symbols(F func = nullptr) {
    return e_.get_class() == ELFCLASS64 ? Arrange<Elf64_Sym>(func) : Arrange<Elf32_Sym>(func);
  }

 private:
  template <typename T, typename F>
  Elf_Xword Arrange(F func) {
    auto at = [&](Elf_Xword i) {
      return reinterpret_cast<T*>(const_cast<char*>(s_->get_data())) + i;
    };
    Elf_Xword first = 1, count = get_symbols_num();
    while (true) {
      while (first < count && ELF_ST_BIND(at(first)->st_info) == STB_LOCAL) first++;
      Elf_Xword cur = first + 1;
      while (cur < count && ELF_ST_BIND(at(cur)->st_info) != STB_LOCAL) cur++;
      if (first >= count || cur >= count) break;
      if constexpr (!std::is_same_v<F, std::nullptr_t>) func(first, cur);
      std::swap(*at(first), *at(cur));
    }
    s_->set_info(first);
    return first;
  }
  Elf_Word Add(Elf_Word name, Elf64_Addr value, Elf_Xword size, unsigned char info,
               unsigned char other, Elf_Half shndx) {
    if (e_.get_class() == ELFCLASS64) {
      Elf64_Sym y{name, info, other, shndx, value, size};
      s_->append_data(reinterpret_cast<const char*>(&y), sizeof y);
    } else {
      Elf32_Sym y{name, static_cast<Elf32_Addr>(value), static_cast<Elf_Word>(size), info, other,
                  shndx};
      s_->append_data(reinterpret_cast<const char*>(&y), sizeof y);
    }
    return s_->get_size() / s_->get_entry_size() - 1;
  }
  const elfio& e_;
  S* s_;
};
using symbol_section_accessor = symbol_section_accessor_template<section>;
using const_symbol_section_accessor = symbol_section_accessor_template<const section>;

}  // namespace ELFIO
#endif
