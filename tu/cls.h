// Generic element class: every special member reports to the ghost hooks; a moved-from element keeps a marker value.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
extern "C" {
void el_born(const void*) noexcept;     // requires: no object lives there
void el_use(const void*) noexcept;      // requires: an object lives there
void el_die(const void*) noexcept;      // requires: an object lives there; ensures: none does
}
struct El {
  static const uint64_t MOVED = 0x6d6f766564ull, DEAD = 0xdeaddeaddeaddeadull;
  uint64_t v;
  El() noexcept { el_born(this); v = 0; }
  El(uint64_t x) noexcept { el_born(this); v = x; }
  El(const El& o) noexcept { el_born(this); el_use(&o); v = o.v; }
  El(El&& o) noexcept { el_born(this); el_use(&o); v = o.v; o.v = MOVED; }
  El& operator=(const El& o) noexcept { el_use(this); el_use(&o); v = o.v; return *this; }
  El& operator=(El&& o) noexcept { el_use(this); el_use(&o); if (&o != this) { v = o.v; o.v = MOVED; } return *this; }
  ~El() noexcept { el_die(this); v = DEAD; }
  bool operator==(const El& o) const noexcept { el_use(this); el_use(&o); return v == o.v; }
  bool operator!=(const El& o) const noexcept { el_use(this); el_use(&o); return v != o.v; }
};
namespace std { template <> struct hash<El> { size_t operator()(const El& e) const noexcept { el_use(&e); return e.v; } }; }
