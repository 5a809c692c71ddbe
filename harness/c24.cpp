// C24: bit primitives over full 64-bit words.
#include "sym.h"
#include <libcommute/loperator/bit_ops.hpp>
using namespace libcommute;
// reference: sum of the individual bits (balanced so that equivalence queries stay easy)
static uint64_t ref_pop(uint64_t x, int lo, int n) {
  if (n == 1) return (x >> lo) & 1;
  return ref_pop(x, lo, n / 2) + ref_pop(x, lo + n / 2, n - n / 2);
}
ENTRY c24_counts() {
  uint64_t x = sym_bits("x", 64);
  sym_check(detail::popcount(x) == ref_pop(x, 0, 64), "popcount is the number of set bits");
  unsigned p = 0;
  for (int i = 0; i < 64; ++i) p ^= (x >> i) & 1;
  sym_check(detail::parity_popcount(x) == (p != 0), "parity is the xor of all bits");
  sym_observe(detail::popcount(x));
  sym_observe(detail::parity_popcount(x));
}
// popcount(0) == 0 and popcount(x | 2^i) == popcount(x) + 1 determine popcount completely
ENTRY c24_popcount_step() {
  uint64_t x = sym_bits("x", 64);
  unsigned i = sym_pick_range("i", sym_param(0), sym_param(0) + 15);
  sym_check(detail::popcount(0) == 0, "popcount(0) is zero");
  x &= ~(uint64_t(1) << i);
  sym_check(detail::popcount(x | (uint64_t(1) << i)) == detail::popcount(x) + 1, "setting a bit increments popcount");
  sym_observe(detail::popcount(x));
}
ENTRY c24_parity_step() {
  uint64_t x = sym_bits("x", 64);
  unsigned i = sym_pick_range("i", sym_param(0), sym_param(0) + 15);
  sym_check(!detail::parity_popcount(0), "parity of 0");
  sym_check(detail::parity_popcount(x ^ (uint64_t(1) << i)) != detail::parity_popcount(x), "flipping a bit flips parity");
  sym_observe(detail::parity_popcount(x));
}
ENTRY c24_ctz() {
  uint64_t x = sym_bits("x", 64);
  sym_assume(x != 0);
  unsigned n = detail::count_trailing_zeros(x);
  sym_check(n < 64, "ctz in range");
  sym_check(((x >> (n & 63)) & 1) == 1, "bit at ctz is set");
  sym_check((x & ((uint64_t(1) << (n & 63)) - 1)) == 0, "all bits below ctz are clear");
  sym_observe(n);
}
ENTRY c24_pow2() {
  unsigned k = sym_range("k", 0, 63);
  sym_check(detail::pow2(k) == (uint64_t(1) << k), "pow2");
  uint64_t i = sym_bits("i", 64);
  sym_assume(i <= (uint64_t(1) << 63));
  uint64_t n = detail::next_pow2(i);
  sym_check(n != 0 && (n & (n - 1)) == 0, "next_pow2 is a power of two");
  sym_check(n >= i, "next_pow2 not smaller");
  sym_check(n == 1 || n / 2 < i, "next_pow2 is the lowest");
  sym_observe(n);
}
// deposit/extract: mask = `w`-bit window at a symbolic position
static uint64_t window_mask() {
  unsigned w = sym_param(0);
  uint64_t m = sym_bits("mask", w);
  unsigned sh = sym_pick_range("shift", 0, 64 - w);
  return m << sh;
}
ENTRY c24_extract() {
  uint64_t mask = window_mask(), v = sym_bits("v", 64);
  uint64_t e = detail::extract_bits(v, mask);
  unsigned n = ref_pop(mask, 0, 64);
  // probe: an arbitrary set bit of the mask
  unsigned i = sym_range("i", 0, 63);
  uint64_t bit = uint64_t(1) << i;
  if (sym_branch((mask & bit) != 0)) {
    unsigned r = ref_pop(mask & (bit - 1), 0, 64);
    sym_check(((e >> r) & 1) == ((v >> i) & 1), "extract puts mask bit of rank r at bit r");
    sym_cover("probe");
  }
  sym_check(n == 64 || (e >> n) == 0, "extract has no bits above popcount(mask)");
  sym_observe(e);
}
ENTRY c24_deposit() {
  uint64_t mask = window_mask(), v = sym_bits("v", 64);
  uint64_t d = detail::deposit_bits(v, mask);
  sym_check((d & ~mask) == 0, "deposit stays inside the mask");
  unsigned i = sym_range("i", 0, 63);
  uint64_t bit = uint64_t(1) << i;
  if (sym_branch((mask & bit) != 0)) {
    unsigned r = ref_pop(mask & (bit - 1), 0, 64);
    sym_check(((d >> i) & 1) == ((v >> r) & 1), "deposit puts bit r at mask bit of rank r");
    sym_cover("probe");
  }
  sym_observe(d);
}
ENTRY c24_roundtrip() {
  uint64_t mask = window_mask(), v = sym_bits("v", 64);
  uint64_t e = detail::extract_bits(v, mask);
  sym_check(detail::deposit_bits(e, mask) == (v & mask), "deposit(extract(v)) == v & mask");
  uint64_t d = detail::deposit_bits(v, mask);
  unsigned n = ref_pop(mask, 0, 64);
  uint64_t low = n == 64 ? ~uint64_t(0) : (uint64_t(1) << n) - 1;
  sym_check(detail::extract_bits(d, mask) == (v & low), "extract(deposit(v)) == low bits of v");
  sym_observe(e); sym_observe(d);
}
// masks with many set bits: every bit outside of a symbolic window is set
static uint64_t wide_mask() {
  unsigned w = sym_param(0);
  uint64_t m = sym_bits("mask", w), full = (uint64_t(1) << w) - 1;
  unsigned sh = sym_pick_range("shift", 0, 64 - w);
  static const uint64_t OUT[4] = {~uint64_t(0), 0x5555555555555555ull, 0xffffffff00000000ull, 0xfffffffffull};
  return (OUT[sym_pick_range("out", 0, 3)] & ~(full << sh)) | m << sh;
}
ENTRY c24_wide() {
  uint64_t mask = sym_pick(wide_mask()), v = sym_bits("v", 64);
  uint64_t e = detail::extract_bits(v, mask), d = detail::deposit_bits(v, mask), we = 0, wd = 0;
  unsigned r = 0;
  for (unsigned i = 0; i < 64; ++i) if (mask >> i & 1) { we |= (v >> i & 1) << r; wd |= (v >> r & 1) << i; ++r; }
  sym_check(e == we, "extract gathers the bits selected by a wide mask");
  sym_check(d == wd, "deposit scatters the low bits over a wide mask");
  sym_cover("done");
}
