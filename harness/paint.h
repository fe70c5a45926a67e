/* What a caller may leave behind below its stack pointer and in the vector registers: anything. */
#include <stdint.h>
static __attribute__((noinline)) void paint(uint64_t c) {
  volatile uint64_t s[8192]; uint64_t x = c * 0x9E3779B97F4A7C15ULL + 1;
  for (int i = 0; i < 8192; i++) { s[i] = x; x = x * 6364136223846793005ULL + 1442695040888963407ULL; }
  if (__builtin_cpu_supports("avx2"))
    __asm__ volatile("vmovq %0,%%xmm0; vpbroadcastq %%xmm0,%%ymm0\n" 
#define P(a, b) "vpaddb %%ymm" #a ",%%ymm" #a ",%%ymm" #b "; vpshufd $57,%%ymm" #b ",%%ymm" #b "\n"
      P(0, 1) P(1, 2) P(2, 3) P(3, 4) P(4, 5) P(5, 6) P(6, 7) P(7, 8) P(8, 9) P(9, 10) P(10, 11) P(11, 12) P(12, 13) P(13, 14) P(14, 15)
      :: "r"(x | 0x0101010101010101ULL) : "xmm0", "xmm1", "xmm2", "xmm3", "xmm4", "xmm5", "xmm6", "xmm7", "xmm8", "xmm9", "xmm10", "xmm11", "xmm12", "xmm13", "xmm14", "xmm15");
}
