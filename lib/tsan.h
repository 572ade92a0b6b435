// The callbacks gcc's -fsanitize=thread inserts, all leading to conc::point(address, is a write, 0 read 1 write 2 read-modify-write).
#pragma once
#include <cstring>
#define CX extern "C" __attribute__((used))
CX void __tsan_init() {}
CX void __tsan_func_entry(void *) {}
CX void __tsan_func_exit() {}
#define RW(n) CX void __tsan_read##n(void *a) { conc::point(a, false, 0); } CX void __tsan_write##n(void *a) { conc::point(a, true, 1); } \
  CX void __tsan_unaligned_read##n(void *a) { conc::point(a, false, 0); } CX void __tsan_unaligned_write##n(void *a) { conc::point(a, true, 1); } \
  CX void __tsan_volatile_read##n(void *a) { conc::point(a, false, 0); } CX void __tsan_volatile_write##n(void *a) { conc::point(a, true, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
CX void __tsan_read_range(void *a, long) { conc::point(a, false, 0); }
CX void __tsan_write_range(void *a, long) { conc::point(a, true, 1); }
CX void __tsan_vptr_update(void **, void *) {}
#define AT(b, T) \
  CX T __tsan_atomic##b##_load(const volatile T *a, int) { conc::point((void *)a, false, 0); return *a; } \
  CX void __tsan_atomic##b##_store(volatile T *a, T v, int) { conc::point((void *)a, true, 1); *a = v; } \
  CX T __tsan_atomic##b##_exchange(volatile T *a, T v, int) { conc::point((void *)a, true, 2); T o = *a; *a = v; return o; } \
  CX T __tsan_atomic##b##_fetch_add(volatile T *a, T v, int) { conc::point((void *)a, true, 2); T o = *a; *a = o + v; return o; } \
  CX T __tsan_atomic##b##_fetch_sub(volatile T *a, T v, int) { conc::point((void *)a, true, 2); T o = *a; *a = o - v; return o; } \
  CX T __tsan_atomic##b##_fetch_and(volatile T *a, T v, int) { conc::point((void *)a, true, 2); T o = *a; *a = o & v; return o; } \
  CX T __tsan_atomic##b##_fetch_or(volatile T *a, T v, int) { conc::point((void *)a, true, 2); T o = *a; *a = o | v; return o; } \
  CX T __tsan_atomic##b##_fetch_xor(volatile T *a, T v, int) { conc::point((void *)a, true, 2); T o = *a; *a = o ^ v; return o; } \
  CX T __tsan_atomic##b##_fetch_nand(volatile T *a, T v, int) { conc::point((void *)a, true, 2); T o = *a; *a = ~(o & v); return o; } \
  CX int __tsan_atomic##b##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { conc::point((void *)a, true, 2); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  CX int __tsan_atomic##b##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { conc::point((void *)a, true, 2); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  CX T __tsan_atomic##b##_compare_exchange_val(volatile T *a, T c, T v, int, int) { conc::point((void *)a, true, 2); T o = *a; if (o == c) *a = v; return o; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
CX void __tsan_atomic_thread_fence(int) {}
CX void __tsan_atomic_signal_fence(int) {}
CX void *__tsan_memcpy(void *d, const void *s, size_t n) { return memcpy(d, s, n); }
CX void *__tsan_memset(void *d, int s, size_t n) { return memset(d, s, n); }
CX void *__tsan_memmove(void *d, const void *s, size_t n) { return memmove(d, s, n); }
