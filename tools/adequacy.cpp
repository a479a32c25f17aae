// Finds operand pairs on which single-gate changes of a bundled 64-bit circuit give wrong results.
//   g++ -O3 -march=native -o adequacy adequacy.cpp && ./adequacy div|ndiv CIRCUIT.txt SECONDS [SEED KNOWN] > vectors
// KNOWN: vectors found before; only those for what they do not tell apart are written.
// Run once, by hand; the harness embeds the result (harness/vectors).
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <set>
#include <string>
#include <vector>
#include <fstream>
#include <iostream>
#include <sstream>
typedef uint64_t W;
struct G { int op, a, b, o; };  // 0 and 1 xor 2 inv 3 or 4 left 5 right 6 zero 7 one 8 not-left
static W rs = 88172645463325252ull;
static W rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 2685821657736338717ull; }
static W num() {
  switch (rnd() % 10) {
    case 0: return rnd() & rnd() & rnd();
    case 1: return rnd() | rnd() | rnd();
    case 2: { int i = rnd() % 64, j = rnd() % 64; return ((1ull << i) - 1) ^ ((1ull << j) - 1); }
    case 3: return 1ull << (rnd() % 64);
    case 4: return ~(1ull << (rnd() % 64));
    case 5: return rnd() >> (rnd() % 64);
    case 6: return -(rnd() >> (rnd() % 64));
    case 7: { static const W k[] = {0, 1, 2, 3, ~0ull, ~1ull, 1ull << 63, (1ull << 63) - 1, (1ull << 63) + 1, 1ull << 32}; return k[rnd() % 10]; }
    default: return rnd();
  }
}
static void pr(bool div, W &a, W &b) {
  a = num();
  switch (rnd() % (div ? 16 : 12)) {
    case 0: b = a; break;
    case 1: b = a ^ (1ull << (rnd() % 64)); break;
    case 2: b = a + 1; break;
    case 3: b = a - 1; break;
    case 4: b = -a; break;
    case 5: b = ~a; break;
    case 6: b = a >> (rnd() % 64); break;
    case 7: b = (a >> (rnd() % 64)) + 1; break;
    case 8: b = rnd() >> (rnd() % 64); break;
    case 9: { b = rnd() >> (rnd() % 64); if (!b) b = 1; W q = (rnd() >> (rnd() % 64)); W m = ~0ull / b; q = m ? q % m : 0; a = q * b - (rnd() & 1);
              if (div && (rnd() & 1)) a = -a; if (div && (rnd() & 1)) b = -b; break; }
    case 12: case 13: case 14: case 15: {
      // quotient, divisor and remainder of a chosen shape
      b = num() >> (rnd() % 64); if (!b) b = 1;
      W q = num() >> (rnd() % 64), m = ~0ull / b; if (m != ~0ull) q %= m + 1;
      W r; switch (rnd() % 5) { case 0: r = 0; break; case 1: r = b - 1; break; case 2: r = b / 2; break; case 3: r = num() % b; break; default: r = 1 % b; }
      a = q * b; a += (a + r < a) ? 0 : r;
      int s = rnd() % 8; if (s == 0) a = -a; if (s == 1) b = -b; if (s == 2) { a = -a; b = -b; }
      break; }
    default: b = num();
  }
  if (div && b == 0) b = 1 + rnd() % 9;
}
static inline W ev(int op, W a, W b) {
  switch (op) { case 0: return a & b; case 1: return a ^ b; case 2: case 8: return ~a; case 3: return a | b; case 4: return a; case 5: return b; case 6: return 0; default: return ~0ull; }
}
int main(int argc, char **argv) {
  bool div = !strcmp(argv[1], "div");
  std::ifstream f(argv[2]);
  double limit = atof(argv[3]);
  int ng, nw; f >> ng >> nw;
  std::string line; std::getline(f, line);
  std::vector<int> head; 
  int n; f >> n; int nin = 0, nops = n; for (int i = 0; i < n; i++) { int x; f >> x; nin += x; }
  f >> n; int nout = 0; for (int i = 0; i < n; i++) { int x; f >> x; nout += x; }
  std::vector<G> g;
  for (int i = 0; i < ng; i++) {
    int ni, no, a, b = 0, o; std::string t; f >> ni >> no >> a; if (ni == 2) f >> b; f >> o >> t;
    g.push_back({t == "AND" ? 0 : t == "XOR" ? 1 : t == "OR" ? 3 : 2, a, b, o});
  }
  // the gates after which a gate's change can matter
  struct M { int i; G g; };
  std::vector<M> ms;
  for (int i = 0; i < ng; i++) {
    G x = g[i];
    for (int op : {0, 1, 3, 4, 5, 6, 7, 8}) {
      if (op == x.op || (x.op == 2 && (op == 0 || op == 1 || op == 3 || op == 5 || op == 8))) continue;
      G y = x; y.op = op; ms.push_back({i, y});
    }
    for (int d : {-64, -2, -1, 1, 2, 64}) {
      G y = x; y.a += d; if (y.a >= 0 && y.a < x.o && y.a != x.a) ms.push_back({i, y});
      if (x.op != 2) { y = x; y.b += d; if (y.b >= 0 && y.b < x.o && y.b != x.b) ms.push_back({i, y}); }
    }
  }
  // wires must be written before they are read: drop the others
  std::vector<int> when(nw, 1 << 30); for (int i = 0; i < nin; i++) when[i] = -1; for (int i = 0; i < ng; i++) when[g[i].o] = i;
  std::vector<M> alive; for (auto &m : ms) if (when[m.g.a] < m.i && (m.g.op == 2 || when[m.g.b] < m.i)) alive.push_back(m);
  size_t total = alive.size();
  std::vector<W> v(nw), base(nw); std::vector<std::pair<W, W>> keep;
  std::vector<int> stamp(nw, 0); int st = 0;
  std::vector<std::vector<int>> users(nw); for (int i = 0; i < ng; i++) { users[g[i].a].push_back(i); if (g[i].op != 2 && g[i].b != g[i].a) users[g[i].b].push_back(i); }
  std::vector<std::pair<W, W>> known; size_t kat = 0;
  if (argc > 5) { rs ^= strtoull(argv[4], 0, 10) * 0x9e3779b97f4a7c15ull; std::ifstream kf(argv[5]); W x, y; while (kf >> std::hex >> x >> y) known.push_back({x, y}); }
  double t0 = clock(); double last = t0; int idle = 0;
  while (!alive.empty() && (clock() - t0) / CLOCKS_PER_SEC < limit) {
    W A[64], B[64];
    bool old = kat < known.size();
    for (int t = 0; t < 64; t++) { if (kat < known.size()) { A[t] = known[kat].first; B[t] = known[kat].second; kat++; } else pr(div, A[t], B[t]); }
    for (int i = 0; i < nin; i++) { W x = 0; for (int t = 0; t < 64; t++) { W s = i < 64 ? A[t] : B[t]; x |= ((s >> (i % 64)) & 1) << t; } base[i] = x; }
    for (auto &x : g) base[x.o] = ev(x.op, base[x.a], base[x.b]);
    std::vector<M> left; std::vector<W> masks; 
    for (auto &m : alive) {
      W nv = ev(m.g.op, base[m.g.a], base[m.g.b]);
      W hit = 0;
      if (nv != base[m.g.o]) {
        // event-driven, in gate order
        st++; std::set<int> todo; v[m.g.o] = nv; stamp[m.g.o] = st; if (m.g.o >= nw - nout) hit |= nv ^ base[m.g.o];
        for (int u : users[m.g.o]) todo.insert(u);
        while (!todo.empty()) {
          int i = *todo.begin(); todo.erase(todo.begin()); if (i == m.i) continue;
          G &x = g[i]; W a = stamp[x.a] == st ? v[x.a] : base[x.a], b = stamp[x.b] == st ? v[x.b] : base[x.b];
          W y = ev(x.op, a, b); if (y == base[x.o]) continue;
          v[x.o] = y; stamp[x.o] = st; if (x.o >= nw - nout) hit |= y ^ base[x.o];
          for (int u : users[x.o]) todo.insert(u);
        }
      }
      if (hit) masks.push_back(hit); else left.push_back(m);
    }
    // a few of the 64 pairs that cover the newly found mutants
    if (old) masks.clear();
    while (!masks.empty()) {
      int cnt[64] = {0}; for (W h : masks) for (int t = 0; t < 64; t++) cnt[t] += (h >> t) & 1;
      int bt = 0; for (int t = 1; t < 64; t++) if (cnt[t] > cnt[bt]) bt = t;
      keep.push_back({A[bt], B[bt]}); std::vector<W> m2; for (W h : masks) if (!((h >> bt) & 1)) m2.push_back(h); masks.swap(m2);
    }
    idle = left.size() == alive.size() ? idle + 1 : 0;
    alive.swap(left);
    if ((clock() - last) / CLOCKS_PER_SEC > 10) { last = clock(); fprintf(stderr, "%s: %zu of %zu left, %zu pairs\n", argv[2], alive.size(), total, keep.size()); }
  }
  fprintf(stderr, "%s: %zu mutants, %zu not told apart, %zu pairs\n", argv[2], total, alive.size(), keep.size());
  for (auto &k : keep) printf("%llx %llx\n", (unsigned long long)k.first, (unsigned long long)k.second);
}
