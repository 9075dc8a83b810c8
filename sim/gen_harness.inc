// Case generation for the harness operations.
static void gen_expr(Rng& r, Op& o, const KInfo& K, int sc) {
  const KernelD& d = *K.d; const char* fl = d.file; char mode = fl[1]; int need = fl[2] - '0'; const char* dims = fl + 3; bool c10 = K.cls == "C10";
  auto set = [&](const std::string& n, long v) { int i = roleidx(d, n.c_str()); if (i >= 0) o.iv[i] = v; };
  double inv = r.chance(.9) ? .01 : .6; int nd = K.dim, q = 0, longdim = (int)r.below(nd); bool used[3] = {0, 0, 0}; for (const char* p = dims; *p >= 'i' && *p <= 'k'; p++) used[*p - 'i'] = true;
  for (int i = 0; i < 3; i++) { long lo = 0, hi = 0; if (used[i]) { lo = gen_lo(r); hi = lo + gen_ext(r, nd, q++, longdim, sc) - 1; if (mode == 'F' && std::labs(lo) > 100000000) { long t = lo % 1000; hi += t - lo; lo = t; } if (r.chance(inv)) hi = lo - r.range(1, 4); } set(rn("lo", i), lo); set(rn("hi", i), hi); set(rn("s", i), mode == 'S' ? (r.chance(.85) ? r.range(1, 4) : r.range(5, 12)) : 1); }
  long n1 = r.range(-2, 2), n2 = r.chance(.5) ? r.range(-1, 1) : r.range(-6, 6); if (r.chance(.3)) std::swap(n1, n2); set("n1", n1); set("n2", n2); long reach = std::max({(long)need, std::labs(n1), std::labs(n2)});
  long gr = r.range(0, 3), m = reach + (mode == 'L' ? gr : 0); if (mode == 'E') gr = std::max(gr, (long)need); set("gr", gr); for (char x : {'x', 'y'}) { bool any = r.chance(.5) && !(x == 'y' && mode == 'L'); for (int i = 0; i < 3; i++) for (char e : {'l', 'h'}) set(std::string() + x + e + char('0' + i), any && used[i] && r.chance(.6) ? r.range(0, 4) : 0); } for (const char* g : {"gu", "gv", "gc"}) set(g, m + (r.chance(.5) ? 0 : r.range(0, r.chance(.96) ? 2 : 9))); set("gs", r.chance(.6) ? 0 : r.range(0, 2));
  if (c10) { long wmin = 1; for (const char* p = dims; *p; p++) if (*p >= '0' && *p <= '9') wmin = *p - '0'; long w = wmin + r.range(0, r.chance(.2) ? 8 : 2); if (r.chance(.05)) w += r.range(8, 30); set("w", w); set("w0", r.chance(.5) ? 0 : r.chance(.5) ? 1 : r.range(-3, 3));
    std::vector<int> of(w * nd); long ow = need > 0 ? r.chance(.6) ? 1 : reach : 0; for (auto& x : of) x = (int)r.range(-ow, ow); o.ia[roleidx(d, "offs")] = of; }
  for (int i = 0; i < d.nargs; i++) if (d.A[i].kind == 'd') { double v = 0.3 + 1.7 * r.unit(); if (r.chance(.1)) v = 1; o.dv[i] = v; }
}
static void gen_iter(Rng& r, Op& o, const KInfo& K, int sc);
static void gen_vec(Rng& r, Op& o, const KInfo& K, int sc);
static void gen_harness(Rng& r, Op& o, const KInfo& K, int sc) { if (K.cls == "C09") gen_iter(r, o, K, sc); else if (K.cls == "C18") gen_vec(r, o, K, sc); else gen_expr(r, o, K, sc); }
// iterators: roles n0..n3 l0.. e0.. t0.. par ck m fi x
static void gen_iter(Rng& r, Op& o, const KInfo& K, int sc) {
  const KernelD& d = *K.d; int N = K.dim; char kind = d.file[1]; const char* ex = d.file + 2; long n[4] = {1, 1, 1, 1}, l[4] = {0, 0, 0, 0}, e[4] = {0, 0, 0, 0}, t[4] = {1, 1, 1, 1}; int lg = (int)r.below(N);
  bool whole = kind == 't' || kind == 'T' || kind == 'f'; int axis = kind == 'g' || kind == 'f' || kind == 'c' ? ex[0] - '0' : -1; bool strided = !whole && kind != 'c' && kind != 'o' && r.chance(.5);
  for (int q = 0; q < N; q++) { n[q] = sc >= 3 ? q == lg ? r.range(1, N == 1 ? 200000 : N == 2 ? 70000 : 34000) : r.range(1, 2) : q == lg && r.chance(.4) ? r.range(1, sc >= 2 ? 400 : N == 1 ? 80 : N == 2 ? 25 : 12) : r.range(1, N == 4 ? 4 : 6); if (q == axis && kind != 'c') n[q]++;
    if (whole) { e[q] = n[q] - 1; continue; }
    if (r.chance(.3)) { e[q] = n[q] - 1; } else { l[q] = r.range(0, n[q] - 1); e[q] = r.range(l[q], n[q] - 1); }
    if (strided) t[q] = r.chance(.85) ? r.range(1, 4) : r.range(5, 12);
    if (q == axis && kind == 'g' && (e[q] - l[q]) / t[q] < 1) { l[q] = 0; e[q] = n[q] - 1; if (t[q] > e[q]) t[q] = 1; } }
  long m = 0, fi = 0, x = 1; 
  if (kind == 'c') { m = r.range(1, 5); if (r.chance(.8)) fi = r.range(-12, 12); else { long M = 1l << r.range(5, 29); fi = r.range(-M, M); } if (r.chance(.1)) m = r.range(6, 32); x = r.chance(.5) ? r.range(1, 9) : r.range(1, sc >= 2 ? 600 : 60); auto fd = [](long a, long b) { return a >= 0 ? a / b : -((-a + b - 1) / b); }; l[axis] = r.range(0, 2); n[axis] = l[axis] + fd(fi + x - 1, m) - fd(fi, m) + 1 + r.range(0, 2); }
  if (kind == 'o') { x = r.range(1, 30); std::vector<int> of(x * N); for (long p = 0; p < x; p++) for (int q = 0; q < N; q++) of[p * N + q] = (int)r.range(-l[q], n[q] - 1 - l[q]); o.ia[22] = of; } else o.ia[22] = {0};
  if (kind == 'w') { l[N - 1] = 0; n[N - 1] = r.range(1, 8); e[N - 1] = n[N - 1] - 1; t[N - 1] = 1; m = r.range(0, n[N - 1] - 1); }
  for (int q = 0; q < 4; q++) { o.iv[q] = n[q]; o.iv[4 + q] = l[q]; o.iv[8 + q] = e[q]; o.iv[12 + q] = t[q]; }
  o.iv[16] = r.range(0, 1 << 20); o.iv[17] = r.chance(.3) ? 1 : r.range(1, 20); o.iv[18] = m; o.iv[19] = fi; o.iv[20] = x;
}
// histories over device vectors
static void gen_vec(Rng& r, Op& o, const KInfo& K, int) {
  bool big = r.chance(.015); int D = K.dim; for (int i = 0; i < 3; i++) { long lo = i < D ? r.chance(.1) ? gen_lo(r) : r.range(-5, 5) : 0, e = i < D ? big ? r.range(D == 1 ? 400 : D == 2 ? 20 : 8, D == 1 ? 12000 : D == 2 ? 100 : 20) : r.range(1, D == 1 ? 40 : D == 2 ? 8 : 4) : 1; o.iv[2 * i] = lo; o.iv[2 * i + 1] = lo + e - 1; }
  o.iv[6] = r.chance(.5) ? 0 : r.range(1, 2); long n = o.iv[7] = r.range(1, big ? 8 : r.chance(.2) ? 60 : 14); o.iv[8] = r.chance(.9) ? r.range(1, 7) : r.range(8, 190); o.iv[9] = r.range(1, 3); o.iv[10] = r.chance(.4) ? 0 : r.range(0, 63); std::vector<int> h(4 * n); bool focus = r.chance(.4);
  static const int off[] = {13, 14, 15, 21, 22, 13};
  for (long q = 0; q < n; q++) { h[4 * q] = (int)(focus && r.chance(.6) ? off[r.below(6)] : r.below(25)); h[4 * q + 1] = (int)r.below(1024); h[4 * q + 2] = (int)r.below(3); h[4 * q + 3] = (int)r.below(4096); } o.ia[11] = h;
}
// arguments a harness operation accepts (the minimiser may propose others)
static bool valid_harness(const KInfo& K, const Op& o) {
  const KernelD& d = *K.d;
  if (K.cls == "C09") { int N = K.dim; char kind = d.file[1]; const char* ex = d.file + 2; int axis = kind == 'g' || kind == 'f' || kind == 'c' ? ex[0] - '0' : -1; auto& v = o.iv;
    for (int q = 0; q < 4; q++) if (v[q] < 1 || v[12 + q] < 1 || v[4 + q] < 0 || v[4 + q] >= v[q] || (kind != 'c' && kind != 'o' && (v[8 + q] < v[4 + q] || v[8 + q] >= v[q]))) return false;
    if (kind == 't' || kind == 'T' || kind == 'f') for (int q = 0; q < N; q++) if (v[4 + q] || v[8 + q] != v[q] - 1 || v[12 + q] != 1) return false;
    if ((kind == 'g' || kind == 'f') && (v[8 + axis] - v[4 + axis]) / v[12 + axis] < 1) return false;
    if (v[17] < 1 || v[20] < 1 || (kind == 'c' && v[18] < 1) || (kind == 'w' && (v[18] < 0 || v[18] >= v[N - 1]))) return false; return true; }
  if (K.cls == "C18") { auto& v = o.iv; for (int i = 0; i < 3; i++) if (v[2 * i + 1] < v[2 * i] || (i >= K.dim && v[2 * i + 1] != v[2 * i])) return false; auto it = o.ia.find(11); if (v[6] < 0 || v[6] > 4 || v[7] < 1 || v[8] < 1 || v[9] < 1 || v[9] > 3 || v[10] < 0 || v[10] > 63 || v[8] * v[9] > 600 || it == o.ia.end() || (long)it->second.size() != 4 * v[7]) return false; for (int x : it->second) if (x < 0) return false; return true; }
  for (int i = 0; i < d.nargs; i++) { const char* q = d.A[i].role; if (d.A[i].kind == 'i' && (!strcmp(q, "w") || !strcmp(q, "s0") || !strcmp(q, "s1") || !strcmp(q, "s2")) && o.iv[i] < 1) return false; }
  if (K.cls == "C08" || K.cls == "C10") { auto at = [&](const char* q) { int i = roleidx(d, q); return i < 0 ? 0l : o.iv[i]; }; int need = d.file[2] - '0'; long reach = std::max({(long)need, std::labs(at("n1")), std::labs(at("n2"))}), m = reach + (d.file[1] == 'L' ? at("gr") : 0); for (char x : {'x', 'y'}) for (char i : {'0', '1', '2'}) for (char e : {'l', 'h'}) { long t = at((std::string() + x + e + i).c_str()); if (t < 0 || t > 50 || (t && x == 'y' && d.file[1] == 'L')) return false; } if (d.file[1] == 'E' && at("gr") < need) return false; if (at("gr") < 0 || at("gs") < 0 || at("gu") < m || at("gv") < m || at("gc") < m) return false;
    if (K.cls == "C10") { const char* p = d.file + 3; while (*p && !isdigit(*p)) p++; if (at("w") < *p - '0') return false; auto it = o.ia.find(roleidx(d, "offs")); if (it != o.ia.end()) for (int x : it->second) if (std::abs(x) > (need > 0 ? reach : 0)) return false; } }
  return true;
}
