// Counts live heap blocks, for C26.
#include <atomic>
#include <cstdlib>
#include <new>
namespace lf { std::atomic<long> blocks{ 0 }; }
static void *get(std::size_t n) { void *p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); ++lf::blocks; return p; }
static void *get(std::size_t n, std::size_t a) { void *p = std::aligned_alloc(a, (n + a - 1) / a * a + (n ? 0 : a)); if (!p) throw std::bad_alloc(); ++lf::blocks; return p; }
static void put(void *p) { if (p) { --lf::blocks; std::free(p); } }
void *operator new(std::size_t n) { return get(n); }
void *operator new[](std::size_t n) { return get(n); }
void *operator new(std::size_t n, std::align_val_t a) { return get(n, (std::size_t)a); }
void *operator new[](std::size_t n, std::align_val_t a) { return get(n, (std::size_t)a); }
void operator delete(void *p) noexcept { put(p); }
void operator delete[](void *p) noexcept { put(p); }
void operator delete(void *p, std::size_t) noexcept { put(p); }
void operator delete[](void *p, std::size_t) noexcept { put(p); }
void operator delete(void *p, std::align_val_t) noexcept { put(p); }
void operator delete[](void *p, std::align_val_t) noexcept { put(p); }
void operator delete(void *p, std::size_t, std::align_val_t) noexcept { put(p); }
void operator delete[](void *p, std::size_t, std::align_val_t) noexcept { put(p); }
