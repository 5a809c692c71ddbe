#pragma once
static int pick_pos(const char* n, int set, int M) {
  if (set == 0) return (int)sym_pick_range(n, 0, M - 1);
  static const int s1[6] = {0, 1, 31, 32, 33, 62};
  int v = (int)sym_pick_range(n, 0, 5);
  int p = s1[v];
  return p < M ? p : M - 1;
}
