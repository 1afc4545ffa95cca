// Which stacks and bounds each property explores. Included by h_alloc.cpp.

struct StackDef {
  std::string name;
  std::vector<LayerSpec> layers;
  std::vector<std::size_t> sizes;
  bool pool;
};

std::vector<StackDef> base_stacks()
{
  std::vector<StackDef> v;
  v.push_back({"quick-hwm100", {quick(64, 32, 16, pcth(100))}, {1, 16, 40}, true});
  v.push_back({"quick-pct50", {quick(64, 48, 16, pct(50))}, {8, 32, 60}, true});
  v.push_back({"quick-none-a1", {quick(40, 24, 1, pct(0))}, {1, 7, 24}, true});
  v.push_back({"quick-blk2-a64", {quick(128, 64, 64, blk(2))}, {1, 64, 100}, true});
  v.push_back({"list-hwm100", {plist(64, 32, 16, pcth(100))}, {1, 16, 40}, true});
  v.push_back({"list-pct50", {plist(64, 48, 16, pct(50))}, {8, 32, 60}, true});
  v.push_back({"list-none-a1", {plist(40, 24, 1, pct(0))}, {1, 7, 24}, true});
  v.push_back({"list-blk2-a64", {plist(128, 64, 64, blk(2))}, {1, 64, 100}, true});
  v.push_back({"fixed-24x2", {fixed(24, 2)}, {24}, true});
  v.push_back({"fixed-3x33", {fixed(3, 33)}, {3}, true});
  v.push_back({"mixed", {mixed(16, 64, 128)}, {9, 16, 33, 100}, true});
  v.push_back({"slot3", {slot(3)}, {8, 24}, false});
  v.push_back({"mono", {mono(100)}, {1, 24, 60}, false});
  v.push_back({"limit", {limit(100)}, {1, 40, 60}, false});
  v.push_back({"aligned16", {alignd(16)}, {1, 16, 33}, false});
  v.push_back({"aligned64", {alignd(64)}, {1, 64, 100}, false});
  v.push_back({"tsafe-quick", {tsafe(), quick(64, 32, 16, pct(100))}, {1, 40}, false});
  v.push_back({"named-list", {named(), plist(64, 32, 16, pct(100))}, {1, 40}, false});
  v.push_back({"shim-limit", {shim(), limit(100)}, {1, 60}, false});
  v.push_back({"limit-quick", {limit(90), quick(64, 32, 16, pct(100))}, {8, 40}, false});
  v.push_back({"quick-limit", {quick(64, 32, 16, pct(100)), limit(200)}, {8, 40, 90}, true});
  v.push_back({"list-limit", {plist(64, 32, 16, pct(100)), limit(200)}, {8, 40, 90}, true});
  v.push_back({"quick-quick", {quick(48, 48, 16, pct(100)), quick(128, 64, 16, pct(50))}, {8, 40}, true});
  v.push_back({"list-quick", {plist(48, 48, 16, pct(100)), quick(128, 64, 16, pct(100))}, {8, 40}, true});
  v.push_back({"quick-list", {quick(48, 48, 16, pct(100)), plist(128, 64, 16, pct(100))}, {8, 40}, true});
  v.push_back({"aligned-quick", {alignd(32), quick(128, 64, 16, pct(100))}, {1, 40}, false});
  v.push_back({"quick-aligned", {quick(64, 32, 32, pct(100)), alignd(64)}, {1, 40}, true});
  v.push_back({"fixed-quick", {fixed(24, 2), quick(64, 64, 16, pct(100))}, {24}, true});
  v.push_back({"slot-quick", {slot(2), quick(64, 32, 16, pct(100))}, {8, 40}, false});
  v.push_back({"mixed-list", {mixed(16, 32, 64), plist(256, 64, 16, pct(100))}, {16, 32, 100}, true});
  v.push_back({"limit-aligned-quick", {limit(100), alignd(16), quick(64, 64, 16, pct(100))}, {1, 40}, false});
  v.push_back({"mono-limit", {mono(64), limit(64)}, {1, 40}, false});
  v.push_back({"untracked-quick", {untr(quick(64, 32, 16, pct(100)))}, {1, 16, 40}, true});
  v.push_back({"untracked-list", {untr(plist(64, 32, 16, pct(100)))}, {1, 16, 40}, true});
  return v;
}

Spec mkspec(const StackDef& d, int depth, int policy, int faults)
{
  Spec s;
  s.name = d.name + "/p" + std::to_string(policy) + "/f" + std::to_string(faults) + "/d" + std::to_string(depth);
  s.layers = d.layers;
  s.sizes = d.sizes;
  s.depth = depth;
  s.policy = policy;
  s.faults = faults;
  Kind k = d.layers[0].kind;
  s.release = k == QP || k == DPL || k == FIXED || k == MIXED;
  s.coalesce = k == QP || k == DPL;
  return s;
}

bool has(const StackDef& d, std::initializer_list<Kind> ks)
{
  for (auto& l : d.layers)
    for (Kind k : ks)
      if (l.kind == k)
        return true;
  return false;
}

// estimate of the size of the history tree, to choose the depth
double tree(const Spec& s, int depth)
{
  // number of histories = product of branching, with live count varying;
  // dynamic programming over the live count
  std::vector<double> cur(depth + 2, 0);
  cur[0] = 1;
  int extra = (s.release ? 1 : 0) + (s.coalesce ? 1 : 0) + (s.zero ? 1 : 0);
  int a = (int)s.sizes.size() * (s.named_alloc ? 2 : 1);
  int f = s.rm_free ? 2 : 1;
  for (int d = 0; d < depth; ++d) {
    std::vector<double> nx(depth + 2, 0);
    for (int l = 0; l <= d; ++l) {
      nx[l + 1] += cur[l] * a;
      if (l)
        nx[l - 1] += cur[l] * l * f;
      nx[l] += cur[l] * extra;
    }
    cur = nx;
  }
  double t = 0;
  for (double x : cur)
    t += x;
  // every history makes about depth/2 parent calls that may be refused
  if (s.faults >= 1)
    t *= 1 + depth;
  if (s.faults >= 2)
    t *= 1 + depth / 2.0;
  return t;
}

void add_deepest(Spec s, double max_histories, int max_depth)
{
  int d = 2;
  while (d + 1 <= max_depth && tree(s, d + 1) <= max_histories)
    ++d;
  s.depth = d;
  s.name = s.name.substr(0, s.name.rfind('/')) + "/d" + std::to_string(d);
  g_specs.push_back(s);
}

// Few operations, many of them: long histories of one pool over very few
// blocks, in which pieces are split, merged and carved again.
void deep_specs(int prop, bool thorough)
{
  for (int which : {0, 1}) {
    std::string nm = which ? "list-" : "quick-";
    auto mk = [&](std::size_t first, std::size_t next, Heur h) {
      return which ? plist(first, next, 16, h) : quick(first, next, 16, h);
    };
    auto deep = [&](const std::string& n, LayerSpec l, std::vector<std::size_t> sizes, int blocks, bool rel, bool co,
                    int depth, int tdepth, int live) {
      StackDef d{nm + n, {l}, sizes, true};
      Spec s = mkspec(d, thorough ? tdepth : depth, 0, 0);
      s.name = "deep-" + s.name;
      s.release = rel;
      s.coalesce = co;
      s.max_blocks = blocks;
      s.max_live = live;
      s.drain = true;
      g_specs.push_back(s);
    };
    deep("one-block", mk(64, 64, pct(0)), {16, 32}, 1, false, false, 12, 14, 4);
    deep("one-block5", mk(80, 80, pct(0)), {16, 32, 48}, 1, false, false, 10, 12, 5);
    deep("blocks-of-2", mk(32, 32, pct(0)), {16, 32}, 3, true, false, 9, 11, 4);
    deep("grow", mk(16, 32, blk(2)), {16, 48}, 4, true, true, 8, 10, 4);
    deep("coalesce2", mk(32, 32, blk(2)), {16, 32}, 3, false, true, 9, 11, 4);
    deep("coalesce50", mk(32, 32, pct(50)), {16, 32}, 3, false, true, 9, 11, 4);
    if (prop == 5 || prop == 7 || prop == 6) {
      // the parent runs out
      for (std::size_t cap : {150, 200}) {
        StackDef d{nm + "cap" + std::to_string(cap), {mk(32, 32, pct(0))}, {16, 32, 48}, true};
        Spec s = mkspec(d, thorough ? 10 : 8, 0, 0);
        s.name = "deep-" + s.name;
        s.release = s.coalesce = false;
        s.max_live = 4;
        s.capacity = cap;
        g_specs.push_back(s);
      }
      StackDef d{nm + "oom", {mk(32, 32, blk(2))}, {16, 48}, true};
      Spec s = mkspec(d, thorough ? 9 : 8, 0, 1);
      s.name = "deep-" + s.name;
      s.release = s.coalesce = false;
      s.one_fault = true;
      s.max_live = 4;
      g_specs.push_back(s);
    }
  }
  // objects of one fixed pool: all orders of freeing and refilling
  for (std::size_t per : {2, 3}) {
    StackDef d{"fixed-16x" + std::to_string(per), {fixed(16, per)}, {16}, true};
    Spec s = mkspec(d, thorough ? 14 : 11, 0, 0);
    s.name = "deep-" + s.name;
    s.max_live = 5;
    g_specs.push_back(s);
  }
}

// Many allocations and large ones.
void pattern_specs(int prop, bool thorough)
{
  auto pat = [&](const StackDef& d, std::vector<int> counts, int policy, int faults, std::size_t arena) {
    Spec s = mkspec(d, 0, policy, faults);
    s.name = "many-" + d.name + "/p" + std::to_string(policy) + "/f" + std::to_string(faults);
    s.counts = counts;
    s.arena = arena;
    s.capacity = arena - 4096;
    s.one_fault = true;
    if (faults) {
      s.rules = 4;
      s.rules2 = 1;
      s.refills = 2;
    } else if (thorough)
      s.rules2 = 10;
    g_specs.push_back(s);
  };
  bool pools_only = prop == 7 || prop == 8;
  for (auto& d : base_stacks()) {
    if (prop == 9 ? !has(d, {LIMIT, MONO, SLOT}) : prop == 2 ? !has(d, {QP, DPL, ALIGN}) : pools_only && !has(d, {QP, DPL, FIXED, MIXED}))
      continue;
    pat(d, thorough ? std::vector<int>{17, 40, 130} : prop == 5 ? std::vector<int>{40} : std::vector<int>{40, 130}, prop == 2 ? 2 : 0, prop == 5 ? 1 : 0, 1 << 17);
  }
  std::vector<StackDef> big;
  for (std::size_t per : {63, 64, 65, 100, 128, 129}) {
    StackDef d{"fixed-8x" + std::to_string(per), {fixed(8, per)}, {8}, true};
    big.push_back(d);
  }
  big.push_back({"quick-4k", {quick(8192, 1024, 16, pcth(100))}, {17, 1000, 3000, 5000}, true});
  big.push_back({"list-4k", {plist(8192, 1024, 16, pcth(100))}, {17, 1000, 3000, 5000}, true});
  big.push_back({"quick-64k", {quick(65536, 4096, 16, pct(50))}, {100, 20000, 70000}, true});
  big.push_back({"list-64k", {plist(65536, 4096, 16, pct(50))}, {100, 20000, 70000}, true});
  big.push_back({"mixed-4k", {mixed(64, 1024, 8192)}, {100, 256, 1000, 4000}, true});
  big.push_back({"slot64", {slot(64)}, {8, 24}, false});
  big.push_back({"slot65", {slot(65)}, {8, 16, 24}, false});
  big.push_back({"limit-4k", {limit(4096)}, {100, 64, 1}, false});
  big.push_back({"mono-4k", {mono(4096)}, {100, 64, 1}, false});
  big.push_back({"aligned-4k", {alignd(4096)}, {1, 4096, 5000}, false});
  big.push_back({"quick-a4k", {quick(16384, 4096, 4096, pct(100))}, {1, 4096, 5000}, true});
  big.push_back({"list-a4k", {plist(16384, 4096, 4096, pct(100))}, {1, 4096, 5000}, true});
  for (auto& d : big) {
    if (prop == 9 ? !has(d, {LIMIT, MONO, SLOT}) : prop == 2 ? !has(d, {QP, DPL, ALIGN}) : pools_only && !has(d, {QP, DPL, FIXED, MIXED}))
      continue;
    bool fx = has(d, {FIXED});
    pat(d, fx ? (thorough ? std::vector<int>{63, 64, 65, 130, 300} : std::vector<int>{65, 200}) : has(d, {SLOT}) ? std::vector<int>{64, 65, 70} : std::vector<int>{20}, prop == 2 ? 2 : 0,
        prop == 5 ? 1 : 0, fx || has(d, {SLOT, LIMIT, MONO}) ? 1 << 17 : 1 << 22);
  }
}

// Sizes beyond 32 bits.
void sparse_specs(int prop, bool thorough)
{
  if (!g_sparse_mem)
    return;
  const std::size_t G = std::size_t(1) << 30;
  std::vector<StackDef> v;
  for (int which : {0, 1}) {
    std::string nm = which ? "list-" : "quick-";
    auto mk = [&](std::size_t first, std::size_t next, std::size_t al, Heur h) {
      return which ? plist(first, next, al, h) : quick(first, next, al, h);
    };
    v.push_back({nm + "12G", {mk(12 * G, 64, 16, pct(0))}, {40, 4 * G + 16}, true});
    v.push_back({nm + "5G", {mk(64, 5 * G, 64, pcth(100))}, {5, 4 * G, 6 * G}, true});
    v.push_back({nm + "grow", {mk(64, 64, 16, blk(2))}, {3 * G, 5 * G + 1}, true});
    v.push_back({nm + "pct", {mk(2 * G, 3 * G, 16, pct(50))}, {G, 4 * G}, true});
  }
  v.push_back({"fixed-3Gx2", {fixed(3 * G, 2)}, {3 * G}, true});
  v.push_back({"fixed-128Mx40", {fixed(G / 8, 40)}, {G / 8}, true});
  v.push_back({"mixed-16G", {mixed(G / 16, 4 * G, 16 * G)}, {G / 16, 5 * G / 16, 4 * G, 5 * G}, true});
  v.push_back({"slot-5G", {slot(2)}, {5 * G, G, 5 * G + 1}, false});
  v.push_back({"mono-10G", {mono(10 * G)}, {1, 3 * G, 5 * G}, false});
  v.push_back({"limit-10G", {limit(10 * G)}, {1, 3 * G, 5 * G}, false});
  v.push_back({"limit-4G", {limit(4 * G - 1)}, {2 * G, 4 * G + 1, 2 * G - 1}, false});
  v.push_back({"aligned-5G", {alignd(64)}, {1, 5 * G}, false});
  v.push_back({"aligned-4Ga", {alignd(4 * G)}, {1, 5 * G}, false});
  v.push_back({"quick-a8G", {quick(64, 64, 8 * G, pct(100))}, {1, 9 * G}, true});
  v.push_back({"tsafe-limit-5G", {tsafe(), limit(9 * G), quick(64, 64, 16, pct(100))}, {1, 5 * G}, false});
  for (auto& d : v) {
    if (prop == 9 ? !has(d, {LIMIT, MONO, SLOT}) : prop == 2 ? !has(d, {QP, DPL, ALIGN}) : (prop == 7 || prop == 8) && !has(d, {QP, DPL, FIXED, MIXED}))
      continue;
    Spec s = mkspec(d, 5, prop == 2 ? 2 : 0, prop == 5 ? 1 : 0);
    s.name = "giga-" + s.name;
    s.sparse = true;
    s.arena = SPARSE_MAX;
    s.capacity = SPARSE_MAX - 4096;
    add_deepest(s, thorough ? 1e6 : 2e4, 7);
  }
  if (prop != 2 && prop != 9) {
    // enough objects to use what lies beyond 4 GiB of one block
    StackDef d{"fixed-128Mx70", {fixed(G / 8, 70)}, {G / 8}, true};
    Spec s = mkspec(d, 0, 0, prop == 5 ? 1 : 0);
    s.name = "giga-many-" + d.name;
    s.sparse = true;
    s.counts = {75};
    s.arena = SPARSE_MAX;
    s.capacity = SPARSE_MAX - 4096;
    s.one_fault = true;
    s.rules = 5;
    s.rules2 = 1;
    g_specs.push_back(s);
  }
}

void make_specs(int prop, bool thorough)
{
  if (prop == 1 || prop == 2 || prop == 4 || prop == 5 || prop == 6 || prop == 7 || prop == 8 || prop == 9)
    sparse_specs(prop, thorough);
  if (prop == 1 || prop == 2 || prop == 4 || prop == 5 || prop == 6 || prop == 7 || prop == 8 || prop == 9)
    pattern_specs(prop, thorough);
  double N = thorough ? 1e7 : 3e5;
  int D = thorough ? 9 : 8;
  if (prop == 1 || prop == 4 || prop == 5 || prop == 6 || prop == 7 || prop == 8)
    deep_specs(prop, thorough);
  for (auto& d : base_stacks()) {
    switch (prop) {
      case 1:
      case 6: {
        for (int pol : {0, 3}) {
          Spec s = mkspec(d, 5, pol, 0);
          add_deepest(s, N, D);
        }
        Spec s = mkspec(d, 5, 2, 1);
        if (prop == 6 || thorough)
          add_deepest(s, N / 2, D);
        break;
      }
      case 2: {
        if (!has(d, {QP, DPL, ALIGN}))
          break;
        for (int pol : {2, 3}) {
          Spec s = mkspec(d, 5, pol, 0);
          add_deepest(s, N / 2, D);
        }
        break;
      }
      case 4: {
        Spec s = mkspec(d, 5, 0, 0);
        s.zero = !d.layers[0].untracked;
        s.named_alloc = !d.layers[0].untracked && d.sizes.size() < 3;
        s.rm_free = !d.layers[0].untracked;
        add_deepest(s, N, D);
        Spec t = mkspec(d, 5, 2, 1);
        add_deepest(t, N / 2, D);
        break;
      }
      case 5: {
        for (int f : {1, 2}) {
          Spec s = mkspec(d, 5, 0, f);
          s.named_alloc = f == 1 && !d.layers[0].untracked;
          add_deepest(s, N / 2, D);
        }
        // natural exhaustion
        Spec s = mkspec(d, 5, 0, 0);
        s.capacity = 260;
        s.name = "small-arena-" + s.name;
        add_deepest(s, N / 2, D);
        break;
      }
      case 7:
      case 8: {
        if (!has(d, {QP, DPL, FIXED, MIXED}))
          break;
        Spec s = mkspec(d, 5, prop == 7 ? 1 : 0, 0);
        add_deepest(s, N, D);
        Spec t = mkspec(d, 5, 2, 1);
        add_deepest(t, N / 2, D);
        break;
      }
      case 9: {
        if (!has(d, {LIMIT, MONO, SLOT}))
          break;
        Spec s = mkspec(d, 5, 0, 0);
        add_deepest(s, N, D + 1);
        Spec t = mkspec(d, 5, 0, 2);
        add_deepest(t, N, D);
        break;
      }
      default:
        break;
    }
  }
  if (prop == 7 || prop == 8 || prop == 1) {
    std::vector<std::pair<std::string, Heur>> hs;
    for (int v : {0, 25, 50, 75, 100}) {
      hs.push_back({"pct" + std::to_string(v), pct(v)});
      hs.push_back({"pcth" + std::to_string(v), pcth(v)});
    }
    for (int v : {1, 2, 3}) {
      hs.push_back({"blk" + std::to_string(v), blk(v)});
      hs.push_back({"blkh" + std::to_string(v), blkh(v)});
    }
    for (auto& h : hs)
      for (int which : {0, 1}) {
        StackDef d{std::string(which ? "list-" : "quick-") + "heur-" + h.first,
                   {which ? plist(32, 32, 16, h.second) : quick(32, 32, 16, h.second)},
                   {16, 32},
                   true};
        Spec s = mkspec(d, 5, 0, 0);
        s.release = false;
        add_deepest(s, prop == 7 ? N : N / 3, D + 2);
      }
  }
  if (prop == 2) {
    for (std::size_t al : {1, 2, 4, 8, 32, 128, 256}) {
      for (int which : {0, 1, 2}) {
        if (which == 2 && al < 16)
          continue;
        LayerSpec l = which == 0 ? quick(2 * al, al, al, pct(100)) : which == 1 ? plist(2 * al, al, al, pct(100)) : alignd(al);
        StackDef d{(which == 0 ? "quick-a" : which == 1 ? "list-a" : "aligned-a") + std::to_string(al), {l},
                   {1, al, al + 1}, true};
        Spec s = mkspec(d, 5, 2, 0);
        s.capacity = 16384;
        add_deepest(s, N / 4, D);
        s.policy = 3;
        s.name = d.name + "/p3/f0/d";
        add_deepest(s, N / 4, D);
      }
    }
  }
  if (prop == 27) {
    for (auto& d : base_stacks()) {
      if (d.layers[0].untracked)
        continue;
      Spec s = mkspec(d, thorough ? 4 : 3, 0, 0);
      s.sizes.clear();
      std::size_t ok = d.sizes.back();
      s.sizes.push_back(ok);
      for (std::size_t k : {0, 1, 7, 8, 15, 16, 17, 23, 31, 32, 63, 64, 127, 128})
        s.sizes.push_back(SIZE_MAX - k);
      for (std::size_t k : {0, 1, 15, 16})
        s.sizes.push_back((std::size_t)PTRDIFF_MAX + 1 - k);
      s.name = "huge-" + s.name;
      g_specs.push_back(s);
    }
  }
}
