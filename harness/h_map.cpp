// P15 (MemoryMap), P16 (AllocationMap), P17 (internal object pools): every
// bounded history of operations on the real containers, compared step by step
// with a reference container.
#include <cstdarg>
#include <map>
#include <memory>
#include <strings.h>

#include "mc.hpp"
#include "umpire/strategy/FixedSizePool.hpp"
#include "umpire/util/AllocationMap.hpp"
#include "umpire/util/FixedMallocPool.hpp"
#include "umpire/util/MemoryMap.hpp"
#include "umpire/util/find_first_set.hpp"
#include "umpire/util/io.hpp"

namespace {

using K = uintptr_t;

std::string fmtv(const char* f, ...)
{
  char b[512];
  va_list a;
  va_start(a, f);
  vsnprintf(b, sizeof b, f, a);
  va_end(a);
  return b;
}

void* P(K k)
{
  return reinterpret_cast<void*>(k);
}
K U(const void* p)
{
  return reinterpret_cast<K>(p);
}

// --------------------------------------------------------------------- P15
long g_val_live = 0;

struct Val {
  uint64_t id;
  uint64_t guard;
  explicit Val(uint64_t i) : id(i), guard(~i)
  {
    ++g_val_live;
  }
  Val(const Val& o) : id(o.id), guard(o.guard)
  {
    ++g_val_live;
  }
  ~Val()
  {
    --g_val_live;
    id = 0xdead;
    guard = 0xdead;
  }
};

using MMap = umpire::util::MemoryMap<Val>;

struct RefEnt {
  uint64_t id;
  const Val* where;
};
using Ref = std::map<K, RefEnt>;

template <typename It>
void same_pos(mc::Ctx& c, It it, const Ref& r, Ref::const_iterator e, const char* what)
{
  K got = U(it->first);
  K want = e == r.end() ? 0 : e->first;
  c.require_f(got == want,
              [&] { return fmtv("%s: got key %#lx, expected %#lx (0 = end)", what, (long)got, (long)want); });
  if (e != r.end()) {
    const Val* v = it->second;
    c.require_f(v == e->second.where, [&] { return fmtv("%s: value of %#lx moved", what, (long)want); });
    c.require_f(v->id == e->second.id && v->guard == ~v->id,
                [&] { return fmtv("%s: value of %#lx changed to %llu", what, (long)want, (unsigned long long)v->id); });
  }
}

Ref::const_iterator ref_before(const Ref& r, K q)
{
  auto i = r.upper_bound(q);
  if (i == r.begin())
    return r.end();
  return --i;
}

void mm_verify(mc::Ctx& c, MMap& m, const Ref& r, const std::vector<K>& probes)
{
  c.require_f(m.size() == r.size(), [&] { return fmtv("size() = %zu, expected %zu", m.size(), r.size()); });
  {
    auto e = r.begin();
    std::size_t n = 0;
    auto it = m.begin();
    for (; it != m.end(); ++it, ++e, ++n) {
      c.require(n < r.size(), "iteration yields too many elements");
      same_pos(c, it, r, e, "iteration");
    }
    c.require(n == r.size(), "iteration yields too few elements");
    c.require(it == m.end(), "end() not reached");
  }
  const MMap& cm = m;
  {
    auto e = r.begin();
    std::size_t n = 0;
    for (auto it = cm.begin(); it != cm.end(); it++, ++e, ++n) {
      c.require(n < r.size(), "const iteration yields too many elements");
      same_pos(c, it, r, e, "const iteration");
    }
    c.require(n == r.size(), "const iteration yields too few elements");
  }
  for (K q : probes) {
    if (!q)
      continue;
    auto f = r.find(q);
    auto it = m.find(P(q));
    same_pos(c, it, r, f, "find");
    c.require((it == m.end()) == (f == r.end()), "find() == end() disagrees");
    same_pos(c, cm.find(P(q)), r, f, "const find");
    auto b = ref_before(r, q);
    auto it2 = m.findOrBefore(P(q));
    same_pos(c, it2, r, b, "findOrBefore");
    c.require((it2 == m.end()) == (b == r.end()), "findOrBefore() == end() disagrees");
    c.require((it2->second == nullptr) == (b == r.end()), "findOrBefore()->second disagrees");
    auto it3 = cm.findOrBefore(P(q));
    same_pos(c, it3, r, b, "const findOrBefore");
    c.require((it3->second == nullptr) == (b == r.end()), "const findOrBefore()->second disagrees");
    // iterating on from any starting point
    if (b != r.end()) {
      ++it3;
      same_pos(c, it3, r, std::next(b), "++ after const findOrBefore");
    }
  }
}

// an iteration continues from its own position whatever was looked up meanwhile
template <typename M>
void mm_interleave(mc::Ctx& c, M& im, MMap& m, const Ref& r)
{
  const MMap& cm = m;
  const int n = (int)r.size();
  for (int pos = 0; pos < n; ++pos)
    for (int q = 0; q < n; ++q)
      for (int op = 0; op < 8; ++op) {
        if (q && op >= 5)
          continue;
        auto it = im.begin();
        auto e = r.begin();
        for (int i = 0; i < pos; ++i) {
          ++it;
          ++e;
        }
        K k = std::next(r.begin(), q)->first;
        switch (op) {
          case 0:
            m.find(P(k));
            break;
          case 1:
            cm.find(P(k));
            break;
          case 2:
            m.findOrBefore(P(k));
            break;
          case 3:
            cm.findOrBefore(P(k));
            break;
          case 4:
            m.insert(P(k), (uint64_t)0);
            break;
          case 5:
            m.begin();
            break;
          case 6: {
            auto o = cm.begin();
            ++o;
            break;
          }
          case 7: {
            auto o = it;
            ++o;
            break;
          }
        }
        ++it;
        same_pos(c, it, r, std::next(e), "++ after another operation");
      }
}

std::vector<K> probes_for(const std::vector<K>& keys)
{
  std::set<K> s;
  for (K k : keys) {
    s.insert(k);
    s.insert(k - 1);
    s.insert(k + 1);
    for (int b = 0; b < 8; ++b) {
      s.insert(k ^ (1ull << (8 * b)));
      s.insert(k | (0xffull << (8 * b)));
      s.insert(k & ~(0xffull << (8 * b)));
    }
  }
  s.insert(1);
  s.insert(~0ull);
  s.erase(0);
  return std::vector<K>(s.begin(), s.end());
}

struct MMHistory {
  struct Slot {
    MMap::Iterator it;
    int map;
    bool valid{false};
    K key{0}; // 0: end
    explicit Slot(MMap& m) : it(m.end())
    {
    }
  };
};

// All sequences of `depth` operations over `keys`, `nmaps` maps, two iterators
// that live across operations.
void mm_body(mc::Ctx& c, const std::vector<K>& keys, int nmaps, int depth, bool iters, bool filled = false)
{
  const long live0 = g_val_live;
  {
    std::vector<std::unique_ptr<MMap>> maps;
    std::vector<Ref> refs(nmaps);
    for (int i = 0; i < nmaps; ++i)
      maps.emplace_back(new MMap);
    const int nslots = iters ? 2 : 0;
    std::vector<MMHistory::Slot> slot(nslots, MMHistory::Slot(*maps[0]));
    uint64_t next_id = 1;
    const int nk = (int)keys.size();
    if (filled) // start from a full map
      for (K k : keys) {
        auto res = maps[0]->insert(P(k), next_id);
        refs[0][k] = {next_id++, res.first->second};
      }
    for (int d = 0; d < depth; ++d) {
      // enumerate the operations possible in this state
      struct Op {
        int kind, a, b;
      };
      std::vector<Op> ops;
      for (int m = 0; m < nmaps; ++m)
        for (int k = 0; k < nk; ++k) {
          bool present = refs[m].count(keys[k]);
          if (!filled || !present)
            ops.push_back({0, m, k}); // insert
          if (present)
            ops.push_back({1, m, k}); // erase (found or not is checked)
          else if (d == depth - 1)
            ops.push_back({1, m, k});
        }
      for (int m = 0; m < nmaps; ++m) {
        if (!refs[m].empty()) {
          ops.push_back({2, m, 0}); // clear
          ops.push_back({3, m, 0}); // begin + removeLast
        }
      }
      for (int s = 0; s < nslots; ++s) {
        ops.push_back({4, s, -1}); // s = begin
        for (int k = 0; k < nk; ++k)
          if (refs[0].count(keys[k]))
            ops.push_back({4, s, k}); // s = find(k)
        if (slot[s].valid && slot[s].key)
          ops.push_back({5, s, 0}); // ++s
        if (slot[s].valid)
          ops.push_back({6, s, 0}); // other = s
      }
      Op o = ops[c.choose((int)ops.size())];
      c.step();
      switch (o.kind) {
        case 0: {
          MMap& m = *maps[o.a];
          Ref& r = refs[o.a];
          K k = keys[o.b];
          const bool present = r.count(k);
          int form = filled ? d % 3 : c.choose(3);
          uint64_t id = next_id++;
          c.log(fmtv("map %d: insert %#lx, form %d", o.a, (long)k, form));
          Val v(id);
          std::pair<MMap::Iterator, bool> res{m.end(), false};
          if (form == 0) {
            const Val& cv = v;
            res = m.insert(P(k), cv);
          } else if (form == 1) {
            res = m.insert(P(k), id);
          } else {
            res = m.insert(std::pair<void*, Val>(P(k), v));
          }
          c.require_f(res.second == !present, [&] {
            return fmtv("insert of %s key reports inserted=%d", present ? "a present" : "an absent", (int)res.second);
          });
          if (!present) {
            r[k] = {id, res.first->second};
            c.require(res.first->second != nullptr, "insert returned a null value");
          }
          same_pos(c, res.first, r, r.find(k), "iterator returned by insert");
          break;
        }
        case 1: {
          MMap& m = *maps[o.a];
          Ref& r = refs[o.a];
          K k = keys[o.b];
          const bool present = r.count(k);
          int form = present ? (filled ? d % 3 : c.choose(3)) : 0;
          c.log(fmtv("map %d: erase %#lx, form %d", o.a, (long)k, form));
          bool threw = false;
          try {
            if (form == 0)
              m.erase(P(k));
            else if (form == 1)
              m.erase(m.find(P(k)));
            else
              m.erase(static_cast<const MMap&>(m).find(P(k)));
          } catch (std::exception&) {
            threw = true;
          }
          c.require(threw == !present, "erase of a present key must succeed, of an absent key must raise");
          r.erase(k);
          for (auto& s : slot)
            if (s.key == k && o.a == 0)
              s.valid = false;
          break;
        }
        case 2:
          c.log(fmtv("map %d: clear", o.a));
          maps[o.a]->clear();
          refs[o.a].clear();
          if (o.a == 0)
            for (auto& s : slot)
              s.valid = s.valid && !s.key;
          break;
        case 3: {
          K k = refs[o.a].begin()->first;
          c.log(fmtv("map %d: begin, removeLast", o.a));
          maps[o.a]->begin();
          maps[o.a]->removeLast();
          refs[o.a].erase(refs[o.a].begin());
          for (auto& s : slot)
            if (s.key == k && o.a == 0)
              s.valid = false;
          break;
        }
        case 4: {
          Ref::const_iterator e;
          if (o.b < 0) {
            c.log(fmtv("it%d = begin", o.a));
            slot[o.a].it = maps[0]->begin();
            e = refs[0].begin();
          } else {
            c.log(fmtv("it%d = find(%#lx)", o.a, (long)keys[o.b]));
            slot[o.a].it = maps[0]->find(P(keys[o.b]));
            e = refs[0].find(keys[o.b]);
          }
          slot[o.a].valid = true;
          slot[o.a].key = e == refs[0].end() ? 0 : e->first;
          same_pos(c, slot[o.a].it, refs[0], e, "iterator");
          break;
        }
        case 5: {
          auto& s = slot[o.a];
          bool post = filled ? d % 2 : c.choose(2);
          c.log(fmtv(post ? "it%d++" : "++it%d", o.a));
          auto e = refs[0].find(s.key);
          if (post) {
            auto old = s.it++;
            same_pos(c, old, refs[0], e, "result of it++");
          } else {
            ++s.it;
          }
          ++e;
          s.key = e == refs[0].end() ? 0 : e->first;
          same_pos(c, s.it, refs[0], e, "incremented iterator");
          c.require((s.it == maps[0]->end()) == (s.key == 0), "incremented iterator == end() disagrees");
          break;
        }
        case 6: {
          int t = 1 - o.a;
          c.log(fmtv("it%d = it%d", t, o.a));
          slot[t].it = slot[o.a].it;
          slot[t].valid = true;
          slot[t].key = slot[o.a].key;
          break;
        }
      }
      mc::Hash h;
      for (int m = 0; m < nmaps; ++m) {
        h.add(refs[m].size());
        for (auto& e : refs[m])
          h.add(e.first);
      }
      for (auto& s : slot)
        h.add(s.valid ? s.key : 1);

      c.state(h.h);
    }
    const std::vector<K> probes = probes_for(keys);
    for (int m = 0; m < nmaps; ++m)
      mm_verify(c, *maps[m], refs[m], probes);
    if (iters) {
      mm_interleave(c, *maps[0], *maps[0], refs[0]);
      mm_interleave(c, static_cast<const MMap&>(*maps[0]), *maps[0], refs[0]);
    }
    long n = 0;
    for (auto& r : refs)
      n += (long)r.size();
    c.require(g_val_live - live0 == n, "number of live values differs from the number of keys");
  }
  c.require(g_val_live == live0, "destroying the map does not destroy every value");
}

// Fill patterns: n keys of one shape, inserted in one order, thinned out by one
// rule, refilled.  Reaches every node type and split of the index.
K shape_key(int shape, unsigned i)
{
  static const K hi = 0x00007f12a4c00000ull;
  if (shape < 8) // the i-th multiple of 256^shape, spilling into the next byte
    return ((K)(i & 0xff) << (8 * shape)) | ((K)((i >> 8) + 1) << (8 * ((shape + 1) % 8))) |
           (shape == 7 || shape == 6 ? 0x10000 : hi & ~((K)0xffff << (8 * shape)));
  switch (shape) {
    case 8:
      return hi + (K)i * 16; // malloc-like
    case 9:
      return hi + (K)i * 48 + (i % 3); // uneven
    case 10:
      return hi + (K)i * 4096; // page-like
    case 11:
      return (K)(i + 1) * 0x0101010101010101ull; // every byte changes
    case 12:
      return ~(K)i; // top of the address space, descending
    case 13:
      return (K)i + 1; // bottom of the address space
    default:
      return (i % 2 ? hi : 0x0000555555550000ull) + (K)(i / 2) * 32; // two far regions
  }
}
constexpr int NSHAPES = 15;

void mm_fill(mc::Ctx& c, const std::vector<int>& counts, int shape)
{
  const int n = counts[c.choose((int)counts.size())];
  const int order = c.choose(4);
  const int thin = c.choose(7);
  c.log(fmtv("shape %d, %d keys, insertion order %d, removal rule %d", shape, n, order, thin));
  std::vector<K> keys;
  {
    std::set<K> s;
    for (int i = 0; i < n; ++i) {
      K k = shape_key(shape, (unsigned)i);
      if (k)
        s.insert(k);
    }
    keys.assign(s.begin(), s.end());
  }
  const std::size_t N = keys.size();
  std::vector<std::size_t> ord(N);
  for (std::size_t i = 0; i < N; ++i)
    ord[i] = i;
  if (order == 1)
    std::reverse(ord.begin(), ord.end());
  if (order == 2) { // outside in
    for (std::size_t i = 0; i < N; ++i)
      ord[i] = i % 2 ? N - 1 - i / 2 : i / 2;
  }
  if (order == 3) { // stride
    std::size_t st = 7;
    while (N % st == 0)
      st += 2;
    for (std::size_t i = 0; i < N; ++i)
      ord[i] = N > 1 ? (i * st) % N : 0;
    std::set<std::size_t> u(ord.begin(), ord.end());
    if (u.size() != N)
      for (std::size_t i = 0; i < N; ++i)
        ord[i] = i;
  }
  MMap m;
  Ref r;
  uint64_t id = 1;
  auto ins = [&](K k) {
    c.step();
    auto res = m.insert(P(k), id);
    c.require_f(res.second, [&] { return fmtv("insert of absent %#lx reports it present", (long)k); });
    r[k] = {id++, res.first->second};
    // the neighbourhood must be right at once
    auto e = r.find(k);
    same_pos(c, m.find(P(k)), r, e, "find after insert");
    if (e != r.begin() && k > 1)
      same_pos(c, m.findOrBefore(P(k - 1)), r, ref_before(r, k - 1), "findOrBefore after insert");
    auto it = m.find(P(k));
    ++it;
    same_pos(c, it, r, std::next(e), "successor after insert");
  };
  auto del = [&](K k) {
    c.step();
    m.erase(P(k));
    r.erase(k);
    c.require(m.find(P(k)) == m.end(), "erased key still found");
    same_pos(c, m.findOrBefore(P(k)), r, ref_before(r, k), "findOrBefore after erase");
  };
  for (std::size_t i = 0; i < N; ++i)
    ins(keys[ord[i]]);
  std::vector<K> probes;
  if (N <= 70)
    probes = probes_for(keys);
  else {
    std::set<K> ps;
    for (std::size_t i = 0; i < N; ++i)
      for (K k : {keys[i], keys[i] - 1, keys[i] + 1, keys[i] & ~(K)0xff, keys[i] & ~(K)0xffff, keys[i] | 0xff,
                  keys[i] & ~((K)0xff << 16), keys[i] & ~((K)0xff << 24), keys[i] & ~((K)0xff << 40)})
        if (k)
          ps.insert(k);
    probes.assign(ps.begin(), ps.end());
  }
  mm_verify(c, m, r, probes);
  std::vector<K> removed;
  for (std::size_t i = 0; i < N; ++i) {
    std::size_t j = ord[i];
    bool rm = false;
    switch (thin) {
      case 0:
        rm = j % 2 == 0;
        break;
      case 1:
        rm = j < N / 2;
        break;
      case 2:
        rm = j >= N / 2;
        break;
      case 3:
        rm = j != N / 2;
        break;
      case 4:
        rm = true;
        break;
      case 5:
        rm = j % 16 != 5;
        break;
      case 6:
        rm = j % 7 == 3;
        break;
    }
    if (rm)
      removed.push_back(keys[j]);
  }
  if (order % 2)
    std::reverse(removed.begin(), removed.end());
  for (K k : removed)
    del(k);
  mm_verify(c, m, r, probes);
  for (K k : removed)
    ins(k);
  mm_verify(c, m, r, probes);
  if (thin == 4) {
    m.clear();
    r.clear();
    mm_verify(c, m, r, probes);
    for (std::size_t i = 0; i < N; ++i)
      ins(keys[ord[i]]);
    mm_verify(c, m, r, probes);
  }
  c.state(mc::Hash().add(shape).add(n).add(order).add(thin).h);
}

// --------------------------------------------------------------------- P16
using AMap = umpire::util::AllocationMap;
using Rec = umpire::util::AllocationRecord;
using umpire::strategy::AllocationStrategy;

struct RRec {
  K ptr;
  std::size_t size;
  AllocationStrategy* strat;
  std::string name;
  const Rec* where{nullptr};
};
using RMap = std::map<K, std::vector<RRec>>;

bool eq(const Rec& a, const RRec& b)
{
  return U(a.ptr) == b.ptr && a.size == b.size && a.strategy == b.strat && a.name == b.name;
}

const RRec* r_find(const RMap& r, K q)
{
  auto i = r.upper_bound(q);
  if (i == r.begin())
    return nullptr;
  --i;
  const RRec& x = i->second.back();
  if (x.ptr == q || x.ptr + x.size > q)
    return &x;
  return nullptr;
}

void am_query(mc::Ctx& c, AMap& m, RMap& r, K q, int form)
{
  RRec* e = const_cast<RRec*>(r_find(r, q));
  const Rec* got = nullptr;
  bool threw = false;
  const AMap& cm = m;
  switch (form) {
    case 0:
      got = m.findRecord(P(q));
      break;
    case 1:
      got = cm.findRecord(P(q));
      break;
    case 2:
      c.require_f(m.contains(P(q)) == (e != nullptr),
                  [&] { return fmtv("contains(%#lx) is %d", (long)q, (int)m.contains(P(q))); });
      return;
    case 3:
    case 4:
      try {
        got = form == 3 ? m.find(P(q)) : cm.find(P(q));
      } catch (umpire::unknown_pointer_error&) {
        threw = true;
      }
      c.require_f(threw == (e == nullptr), [&] { return fmtv("find(%#lx): raised=%d", (long)q, (int)threw); });
      break;
  }
  c.require_f((got != nullptr) == (e != nullptr), [&] {
    return fmtv("lookup of %#lx %s a record, expected %s", (long)q, got ? "returned" : "did not return",
                e ? "one" : "none");
  });
  if (e) {
    c.require_f(eq(*got, *e), [&] {
      return fmtv("lookup of %#lx returned record (%p,%zu,%s), expected (%#lx,%zu,%s)", (long)q, got->ptr, got->size,
                  got->name.c_str(), (long)e->ptr, e->size, e->name.c_str());
    });
    if (!e->where)
      e->where = got;
    c.require(e->where == got, "a record moved while it was registered");
  }
}

void am_verify(mc::Ctx& c, AMap& m, RMap& r, const std::vector<K>& probes)
{
  std::vector<const RRec*> all;
  for (auto& kv : r)
    for (auto i = kv.second.rbegin(); i != kv.second.rend(); ++i)
      all.push_back(&*i);
  c.require_f(m.size() == all.size(), [&] { return fmtv("size() = %zu, expected %zu", m.size(), all.size()); });
  for (int pass = 0; pass < 2; ++pass) {
    std::size_t n = 0;
    auto it = m.begin();
    auto end = m.end();
    while (it != end) {
      c.require(n < all.size(), "iteration yields too many records");
      const Rec& x = *it;
      c.require_f(eq(x, *all[n]), [&] {
        return fmtv("iteration element %zu is (%p,%zu,%s), expected (%#lx,%zu,%s)", n, x.ptr, x.size, x.name.c_str(),
                    (long)all[n]->ptr, all[n]->size, all[n]->name.c_str());
      });
      c.require(it->size == x.size, "-> and * differ");
      ++n;
      if (pass == 0)
        ++it;
      else {
        // lookups in between must not disturb the iteration
        m.findRecord(P(probes[n % probes.size()]));
        auto old = it++;
        c.require(eq(*old, *all[n - 1]), "it++ returns the wrong record");
      }
    }
    c.require(n == all.size(), "iteration yields too few records");
  }
  c.require((m.begin() == m.end()) == all.empty(), "begin()==end() disagrees with emptiness");
  for (K q : probes)
    if (q)
      for (int form = 0; form < 5; ++form)
        am_query(c, m, r, q, form);
  // printed listing
  for (int which = 0; which < 3; ++which) {
    std::ostringstream os;
    auto pred = [which](const Rec& x) { return which == 0 ? true : which == 1 ? x.size % 2 == 0 : x.size == 99999; };
    m.print(pred, os);
    std::string s = os.str();
    std::size_t at = 0, shown = 0;
    for (std::size_t p = 0; (p = s.find("size: ", p)) != std::string::npos; p += 6)
      ++shown;
    std::size_t want = 0;
    for (auto* x : all) {
      bool w = which == 0 ? true : which == 1 ? x->size % 2 == 0 : x->size == 99999;
      if (!w)
        continue;
      ++want;
      std::ostringstream a, b;
      a << "size: " << x->size << ",";
      b << "name: " << x->name << ",";
      auto p = s.find("size: ", at);
      c.require(p != std::string::npos, "a record is missing from the printed listing");
      auto e = s.find('\n', p);
      std::string line = s.substr(p, e - p);
      std::ostringstream lo, hi;
      lo << P(x->ptr);
      hi << P(x->ptr + x->size);
      c.require_f(line.find(a.str()) == 0 && line.find(b.str()) != std::string::npos &&
                      line.find(lo.str()) != std::string::npos && line.find(hi.str()) != std::string::npos,
                  [&] { return "printed listing: unexpected line: " + line; });
      at = e;
    }
    c.require(shown == want, "the printed listing shows records that do not match");
  }
  {
    std::ostringstream os;
    m.printAll(os);
    std::string s = os.str();
    std::size_t shown = 0;
    for (std::size_t p = 0; (p = s.find("size: ", p)) != std::string::npos; p += 6)
      ++shown;
    c.require(shown == all.size(), "printAll shows the wrong number of records");
  }
}

void am_body(mc::Ctx& c, const std::vector<std::pair<K, std::vector<std::size_t>>>& universe, int depth)
{
  AMap m;
  RMap r;
  std::set<K> ps;
  for (auto& u : universe) {
    ps.insert(u.first - 1);
    ps.insert(u.first);
    ps.insert(u.first + 1);
    for (auto s : u.second) {
      ps.insert(u.first + s);
      ps.insert(u.first + s - 1);
      ps.insert(u.first + s + 1);
      ps.insert(u.first + s / 2);
    }
  }
  ps.erase(0);
  std::vector<K> probes(ps.begin(), ps.end());
  int serial = 0;
  struct Held {
    AMap::ConstIterator it;
    std::vector<RRec> rest;
  };
  std::unique_ptr<Held> held;
  for (int d = 0; d < depth; ++d) {
    struct Op {
      int kind;
      K k;
      std::size_t s;
    };
    std::vector<Op> ops;
    for (auto& u : universe) {
      for (auto s : u.second)
        ops.push_back({0, u.first, s});
      if (r.count(u.first) || d == depth - 1)
        ops.push_back({1, u.first, 0});
    }
    if (!r.empty()) {
      ops.push_back({2, 0, 0}); // clear
      ops.push_back({3, universe[universe.size() / 2].first + 1, 0}); // interior removal
    }
    Op o = ops[c.choose((int)ops.size())];
    c.step();
    switch (o.kind) {
      case 0: {
        ++serial;
        RRec x;
        x.ptr = o.k;
        x.size = o.s;
        x.strat = reinterpret_cast<AllocationStrategy*>((K)0x1000 + serial);
        x.name = serial % 2 ? "n" + std::to_string(serial) : std::string();
        c.log(fmtv("insert %#lx size %zu", (long)o.k, o.s));
        m.insert(P(o.k), Rec{P(o.k), o.s, x.strat, x.name});
        r[o.k].push_back(x);
        break;
      }
      case 1:
      case 3: {
        c.log(fmtv("remove %#lx", (long)o.k));
        bool threw = false;
        Rec got;
        try {
          got = m.remove(P(o.k));
        } catch (umpire::runtime_error&) {
          threw = true;
        }
        auto i = r.find(o.k);
        c.require(threw == (i == r.end()), "remove of a registered address must succeed, of any other must raise");
        if (!threw) {
          c.require(eq(got, i->second.back()), "remove returned a record other than the newest");
          i->second.pop_back();
          if (i->second.empty())
            r.erase(i);
        }
        break;
      }
      case 2:
        c.log("clear");
        m.clear();
        r.clear();
        break;
    }
    // one cheap lookup after every step, the full comparison at the end
    am_query(c, m, r, o.k ? o.k : universe[0].first, d % 5);
    mc::Hash h;
    for (auto& kv : r) {
      h.add(kv.first);
      for (auto& x : kv.second)
        h.add(x.size);
      h.add(77);
    }
    c.state(h.h);
  }
  am_verify(c, m, r, probes);
  // a second, independent, map is not disturbed
  c.require(AMap{}.size() == 0, "a new map is not empty");
}

// Lookups as part of the history: one lookup (any address, any form) between
// two changes, repeated in every form after the next change.
void am_requery(mc::Ctx& c, const std::vector<std::pair<K, std::size_t>>& universe, int depth)
{
  AMap m;
  RMap r;
  std::vector<K> qs;
  for (auto& u : universe)
    for (K o : {(K)0, (K)(u.second / 2), (K)(u.second - 1), (K)u.second})
      qs.push_back(u.first + o);
  K last = 0;
  int serial = 0;
  for (int d = 0; d < depth; ++d) {
    int n = (int)universe.size();
    int k = c.choose(2 * n + (r.empty() ? 0 : 1));
    c.step();
    if (k < n) {
      RRec x;
      x.ptr = universe[k].first;
      x.size = universe[k].second - (serial % 3);
      x.strat = reinterpret_cast<AllocationStrategy*>((K)0x1000 + ++serial);
      c.log(fmtv("insert %#lx size %zu", (long)x.ptr, x.size));
      m.insert(P(x.ptr), Rec{P(x.ptr), x.size, x.strat, x.name});
      r[x.ptr].push_back(x);
    } else if (k < 2 * n) {
      K p = universe[k - n].first;
      auto i = r.find(p);
      c.log(fmtv("remove %#lx", (long)p));
      bool threw = false;
      try {
        m.remove(P(p));
      } catch (umpire::runtime_error&) {
        threw = true;
      }
      c.require(threw == (i == r.end()), "remove of a registered address must succeed, of any other must raise");
      if (!threw) {
        i->second.pop_back();
        if (i->second.empty())
          r.erase(i);
      }
    } else {
      c.log("clear");
      m.clear();
      r.clear();
    }
    if (last)
      for (int f = 0; f < 5; ++f)
        am_query(c, m, r, last, f);
    if (d + 1 < depth) {
      last = qs[c.choose((int)qs.size())];
      int f = c.choose(3) * 2 % 5; // findRecord, contains, find
      c.log(fmtv("look up %#lx", (long)last));
      am_query(c, m, r, last, f);
    } else
      for (K q : qs)
        am_query(c, m, r, q, 0);
    mc::Hash h;
    for (auto& kv : r)
      for (auto& x : kv.second)
        h.add(kv.first).add(x.size);
    c.state(h.h);
  }
}

void am_many(mc::Ctx& c, const std::vector<int>& counts)
{
  const int n = counts[c.choose((int)counts.size())];
  const int dup = 1 + c.choose(3);
  const int order = c.choose(3);
  const int rm = c.choose(4);
  c.log(fmtv("%d addresses, %d records each, order %d, removal %d", n, dup, order, rm));
  AMap m;
  RMap r;
  std::vector<K> ks;
  for (int i = 0; i < n; ++i) {
    int j = order == 0 ? i : order == 1 ? n - 1 - i : (i % 2 ? n - 1 - i / 2 : i / 2);
    ks.push_back(0x7f0000001000ull + (K)j * 64);
  }
  int serial = 0;
  for (int d = 0; d < dup; ++d)
    for (K k : ks) {
      RRec x;
      x.ptr = k;
      x.size = 16 + (serial % 5) * 12;
      x.strat = reinterpret_cast<AllocationStrategy*>((K)0x1000 + ++serial);
      x.name = "r" + std::to_string(serial);
      m.insert(P(k), Rec{P(k), x.size, x.strat, x.name});
      r[k].push_back(x);
      c.step();
    }
  std::vector<K> probes;
  for (K k : ks) {
    probes.push_back(k);
    probes.push_back(k + 15);
    probes.push_back(k + 40);
    probes.push_back(k + 63);
  }
  am_verify(c, m, r, probes);
  int i = 0;
  for (K k : ks) {
    ++i;
    int times = rm == 0 ? 1 : rm == 1 ? dup : rm == 2 ? (i % 2 ? dup : 0) : (i % 3 ? 1 : dup);
    for (int t = 0; t < times; ++t) {
      auto it = r.find(k);
      Rec g = m.remove(P(k));
      c.step();
      c.require(eq(g, it->second.back()), "remove returned a record other than the newest");
      it->second.pop_back();
      if (it->second.empty())
        r.erase(it);
    }
  }
  am_verify(c, m, r, probes);
  m.clear();
  r.clear();
  am_verify(c, m, r, probes);
  c.state(mc::Hash().add(n).add(dup).add(order).add(rm).h);
}

// --------------------------------------------------------------------- P17
// Blocks of raw memory handed to the pools, recorded through --wrap.
std::map<K, std::size_t> g_blocks;
volatile bool g_track = false;

} // namespace

extern "C" {
void* __real_malloc(std::size_t);
void __real_free(void*);
static __thread int in_hook = 0;
void* __wrap_malloc(std::size_t n)
{
  void* p = __real_malloc(n);
  if (g_track && !in_hook) {
    ++in_hook;
    g_blocks[U(p)] = n;
    --in_hook;
  }
  return p;
}
void __wrap_free(void* p)
{
  if (g_track && !in_hook) {
    ++in_hook;
    g_blocks.erase(U(p));
    --in_hook;
  }
  __real_free(p);
}
}

namespace {

struct SlotRef {
  unsigned char* p;
  unsigned char tag;
};

bool owned_by_pool(const void* p, std::size_t n)
{
  auto i = g_blocks.upper_bound(U(p));
  if (i == g_blocks.begin())
    return false;
  --i;
  return U(p) + n <= i->first + i->second;
}

template <typename Pool>
void pool_history(mc::Ctx& c, Pool& pool, std::size_t obj, int depth, int max_live,
                  const std::function<void*()>& alloc, const std::function<void(void*)>& dealloc,
                  const std::function<std::size_t()>& pools, const std::function<std::size_t()>& inuse,
                  std::size_t cap, int prefill)
{
  std::vector<SlotRef> live;
  unsigned char tag = 1;
  auto check_all = [&] {
    for (auto& s : live) {
      bool ok = true;
      for (std::size_t i = 0; i < obj; ++i)
        ok &= s.p[i] == (unsigned char)(s.tag + i);
      c.require_f(ok, [&] { return fmtv("a live %zu-byte slot was overwritten", obj); });
    }
  };
  std::size_t high = pools();
  auto do_alloc = [&] {
    const std::size_t before = pools();
    auto* p = static_cast<unsigned char*>(alloc());
    c.step();
    c.require(p != nullptr, "allocate returned null");
    c.require(owned_by_pool(p, obj), "a slot lies outside the memory obtained by the pool");
    for (auto& s : live)
      c.require(p + obj <= s.p || s.p + obj <= p, "two live slots overlap");
    const std::size_t after = pools();
    c.require_f(after == before || live.size() == before * cap, [&] {
      return fmtv("new memory obtained with %zu of %zu slots in use", live.size(), before * cap);
    });
    c.require(after <= before + 1, "more than one block obtained");
    high = after;
    for (std::size_t i = 0; i < obj; ++i)
      p[i] = (unsigned char)(tag + i);
    live.push_back({p, tag});
    tag = (unsigned char)(tag * 5 + 3);
    check_all();
  };
  auto do_free = [&](std::size_t i) {
    auto s = live[i];
    live.erase(live.begin() + i);
    dealloc(s.p);
    c.step();
    check_all();
  };
  for (int i = 0; i < prefill; ++i)
    do_alloc();
  for (int d = 0; d < depth; ++d) {
    int nfree = (int)live.size();
    // with many live slots only the ends, the middle and block boundaries
    std::vector<std::size_t> cand;
    if (nfree <= 6)
      for (int i = 0; i < nfree; ++i)
        cand.push_back(i);
    else
      for (std::size_t i : {(std::size_t)0, (std::size_t)1, cap - 1, cap, (std::size_t)nfree / 2, (std::size_t)nfree - 2,
                            (std::size_t)nfree - 1})
        if (i < (std::size_t)nfree && std::find(cand.begin(), cand.end(), i) == cand.end())
          cand.push_back(i);
    bool can_alloc = nfree < max_live;
    const int foreign = d == depth - 1 ? 4 : 0;
    int k = c.choose((can_alloc ? 1 : 0) + (int)cand.size() + foreign);
    if (can_alloc && k == 0) {
      c.log("allocate");
      do_alloc();
    } else {
      k -= can_alloc ? 1 : 0;
      if (k < (int)cand.size()) {
        c.log(fmtv("free #%zu", cand[k]));
        do_free(cand[k]);
      } else {
        k -= (int)cand.size();
        static unsigned char foreign_mem[64];
        unsigned char* bad = nullptr;
        // first and last block of the pool
        K lo = ~(K)0, hi = 0;
        for (auto& b : g_blocks)
          if (b.second == obj * cap) {
            lo = std::min(lo, b.first);
            hi = std::max(hi, b.first + b.second);
          }
        if (k == 0)
          bad = foreign_mem;
        else if (k == 1)
          bad = nullptr;
        else if (k == 2)
          bad = reinterpret_cast<unsigned char*>(hi); // one past the last slot
        else
          bad = reinterpret_cast<unsigned char*>(lo - 8);
        c.log(fmtv("free foreign address %d", k));
        bool threw = false;
        std::streambuf* old = std::cerr.rdbuf(nullptr);
        try {
          dealloc(bad);
        } catch (std::exception&) {
          threw = true;
        }
        std::cerr.rdbuf(old);
        std::cerr.clear();
        c.step();
        c.require(threw, "freeing an address that is not from the pool was accepted");
        check_all();
        c.require(pools() == high, "freeing a foreign address changed the number of blocks");
      }
    }
    c.require_f(inuse() == live.size(), [&] { return fmtv("pool says %zu slots in use, expected %zu", inuse(), live.size()); });
    mc::Hash h;
    h.add(pools());
    std::vector<K> off;
    for (auto& s : live) {
      auto i = std::prev(g_blocks.upper_bound(U(s.p)));
      off.push_back(U(s.p) - i->first);
    }
    for (K x : off)
      h.add(x);
    c.state(h.h);
  }
  // every free slot can be handed out before any new memory is obtained
  const std::size_t total = pools() * cap;
  if (total <= 200)
    while (live.size() < total)
      do_alloc();
  c.require(pools() * cap == total, "free slots were not reused");
  while (!live.empty())
    do_free(live.size() / 2);
}

void fmp_body(mc::Ctx& c, std::size_t obj, std::size_t per, int depth, int prefill)
{
  g_blocks.clear();
  {
    g_track = true;
    umpire::util::FixedMallocPool pool(obj, per);
    g_track = false;
    std::size_t inuse = 0;
    auto alloc = [&]() -> void* {
      g_track = true;
      void* p = pool.allocate(obj);
      g_track = false;
      ++inuse;
      return p;
    };
    auto dealloc = [&](void* p) {
      g_track = true;
      try {
        pool.deallocate(p);
      } catch (...) {
        g_track = false;
        throw;
      }
      g_track = false;
      --inuse;
    };
    pool_history(c, pool, obj, depth, (int)(2 * per + 2), alloc, dealloc, [&] { return pool.numPools(); },
                 [&] { return inuse; }, per, prefill);
  }
  g_blocks.clear();
}

template <int BYTES>
struct Obj {
  unsigned char b[BYTES];
};

template <int BYTES, int NP>
void fsp_body(mc::Ctx& c, int depth, int prefill)
{
  using Pool = FixedSizePool<Obj<BYTES>, StdAllocator, StdAllocator, NP>;
  g_blocks.clear();
  {
    g_track = true;
    Pool pool;
    g_track = false;
    auto alloc = [&]() -> void* {
      g_track = true;
      void* p = pool.allocate();
      g_track = false;
      return p;
    };
    auto dealloc = [&](void* p) {
      g_track = true;
      try {
        pool.deallocate(static_cast<Obj<BYTES>*>(p));
      } catch (...) {
        g_track = false;
        throw;
      }
      g_track = false;
    };
    pool_history(c, pool, BYTES, depth, 32 * NP * 2 + 2, alloc, dealloc, [&] { return pool.numPools(); },
                 [&] { return pool.getCurrentSize() / BYTES; }, 32 * NP, prefill);
    c.require(pool.getActualSize() == pool.numPools() * pool.poolSize(), "actual size is not blocks times block size");
  }
  g_blocks.clear();
}

void ffs_body(mc::Ctx& c)
{
  unsigned hi = (unsigned)c.choose(256);
  c.log(fmtv("all words with top byte %#x", hi));
  for (unsigned lo = 0; lo < (1u << 24); ++lo) {
    unsigned w = (hi << 24) | lo;
    int want = 0;
    for (int i = 0; w && i < 32; ++i)
      if ((w >> i) & 1) {
        want = i + 1;
        break;
      }
    if (umpire::util::find_first_set((int)w) != want)
      c.fail(fmtv("find_first_set(%#x) = %d, expected %d", w, umpire::util::find_first_set((int)w), want));
  }
  c.check();
  c.step();
  c.state(hi + 1);
}

std::vector<mc::Config> make(const mc::Options& o)
{
  std::vector<mc::Config> v;
  const bool th = o.tier == "thorough";
  auto add = [&](std::string name, std::string bounds, std::function<void(mc::Ctx&)> f, int split = 3,
                 uint64_t seg = 20000) {
    mc::Config c;
    c.name = name;
    c.bounds = bounds;
    c.body = f;
    c.split = split;
    c.segment = seg;
    c.hang_s = 60;
    v.push_back(c);
  };
  if (o.property == "P15") {
    const K base = 0x00007f12a4c0b340ull;
    std::vector<std::pair<std::string, std::vector<K>>> uni;
    uni.push_back({"adjacent", {base, base + 1, base + 2}});
    uni.push_back({"extremes", {1, 0x8000000000000000ull, ~0ull}});
    uni.push_back({"bytes0-1-2", {base, base ^ 0x80, base ^ 0x100}});
    uni.push_back({"bytes3-5-7", {base, base ^ (1ull << 24), base ^ (1ull << 56)}});
    {
      std::vector<K> keys{base, base + 16, base + 48};
      const int D4 = th ? 7 : 5;
      add("iterators-full-map", fmtv("all sequences of %d operations on a map of 3 keys with 2 iterators", D4),
          [keys, D4](mc::Ctx& c) { mm_body(c, keys, 1, D4, true, true); });
    }
    if (th) {
      uni.push_back({"bytes2-4-6", {base, base ^ (1ull << 20), base ^ (1ull << 48)}});
      uni.push_back({"ff-carry", {0xff, 0x100, 0xffff}});
      uni.push_back({"32bit", {0xffffffffull, 0x100000000ull, 0xffffffff00000000ull}});
      uni.push_back({"zero-bytes", {0x100, 0x10000, 0x1000000000000ull}});
    }
    const int D = th ? 6 : 4;
    for (auto& u : uni) {
      auto keys = u.second;
      add("iterators-" + u.first, fmtv("all sequences of %d operations on 3 keys and 2 iterators", D),
          [keys, D](mc::Ctx& c) { mm_body(c, keys, 1, D, true); });
    }
    std::vector<std::vector<K>> wide;
    for (int b = 0; b < 8; ++b) {
      K s = 1ull << (8 * b);
      wide.push_back({base, base ^ s, base ^ (2 * s), base ^ (0x80 * s)});
      wide.push_back({base & ~(0xff * s), base | (0xff * s), base + s, base ^ (s << 7 | 0x10)});
    }
    const int D2 = th ? 6 : 4;
    for (std::size_t i = 0; i < wide.size(); ++i) {
      auto keys = wide[i];
      std::sort(keys.begin(), keys.end());
      keys.erase(std::unique(keys.begin(), keys.end()), keys.end());
      add(fmtv("updates-byte%zu%s", i / 2, i % 2 ? "b" : "a"),
          fmtv("all sequences of %d updates on %zu keys that differ in byte %zu", D2, keys.size(), i / 2),
          [keys, D2](mc::Ctx& c) { mm_body(c, keys, 1, D2, false); });
    }
    {
      std::vector<K> keys{base, base + 16};
      const int D3 = th ? 6 : 4;
      add("two-maps", fmtv("all sequences of %d updates on 2 keys in each of 2 maps", D3),
          [keys, D3](mc::Ctx& c) { mm_body(c, keys, 2, D3, false); });
    }
    std::vector<int> counts;
    if (th) {
      for (int i = 1; i <= 300; ++i)
        counts.push_back(i);
      for (int i : {400, 511, 512, 513, 1000, 2000, 4097, 9000})
        counts.push_back(i);
    } else {
      for (int i = 1; i <= 36; ++i)
        counts.push_back(i);
      for (int i : {63, 64, 65, 127, 129, 255, 256, 257, 300, 520, 1500})
        counts.push_back(i);
    }
    for (int s = 0; s < NSHAPES; ++s)
      add(fmtv("fill-shape%d", s), fmtv("%zu key counts up to %d x 4 insertion orders x 7 removal rules, refilled",
                                        counts.size(), counts.back()),
          [counts, s](mc::Ctx& c) { mm_fill(c, counts, s); }, 2, 2000);
  } else if (o.property == "P16") {
    using Un = std::vector<std::pair<K, std::vector<std::size_t>>>;
    const K b = 0x00007f12a4c0b340ull;
    std::vector<std::pair<std::string, Un>> us;
    us.push_back({"disjoint", {{b, {0, 16}}, {b + 16, {16}}, {b + 40, {8, 9}}}});
    us.push_back({"nested", {{b, {64, 1}}, {b + 8, {8}}, {b + 32, {16, 0}}}});
    us.push_back({"same-start", {{b, {0, 1, 8, 24}}, {b + 8, {2, 16}}}});
    us.push_back({"far", {{16, {8}}, {0x555555550000ull, {0x1000, 4}}, {0x7fffffff0000ull, {0xffff}}}});
    const int D = th ? 7 : 5;
    for (auto& u : us) {
      auto un = u.second;
      add("records-" + u.first, fmtv("all sequences of %d insert/remove/clear operations", D),
          [un, D](mc::Ctx& c) { am_body(c, un, D); });
    }
    std::vector<int> counts;
    for (int i = 1; i <= (th ? 300 : 40); ++i)
      counts.push_back(i);
    counts.push_back(100);
    counts.push_back(256);
    counts.push_back(600);
    add("many", fmtv("%zu address counts up to 600, up to 3 records per address, 3 orders, 4 removal rules", counts.size()),
        [counts](mc::Ctx& c) { am_many(c, counts); }, 2, 2000);
    {
      std::vector<std::pair<K, std::size_t>> u = {{0x7f0000001000ull, 16}, {0x7f0000001010ull, 24}};
      const int d = th ? 4 : 3;
      add(fmtv("requery/d%d", d),
          fmtv("all sequences of %d insertions, removals and clears over 2 adjacent addresses with every choice of one "
               "lookup in between, repeated after the next change", d),
          [u, d](mc::Ctx& c) { am_requery(c, u, d); }, 2, 2000);
    }
  } else if (o.property == "P17") {
    const int D = th ? 12 : 9;
    for (std::size_t obj : {4, 8, 12, 40})
      for (std::size_t per : {1, 2, 3}) {
        add(fmtv("malloc-pool-%zux%zu", obj, per), fmtv("all sequences of %d allocations and frees, foreign frees last", D),
            [=](mc::Ctx& c) { fmp_body(c, obj, per, D - (int)per, 0); });
      }
    for (std::size_t per : {4, 31, 33, 64})
      for (int pre : {(int)per - 1, 2 * (int)per - 2})
        add(fmtv("malloc-pool-16x%zu-filled%d", per, pre), fmtv("all sequences of %d operations after %d allocations", th ? 7 : 5, pre),
            [=](mc::Ctx& c) { fmp_body(c, 16, per, th ? 7 : 5, pre); });
    for (int pre : {0, 30, 31, 63})
      add(fmtv("bitmap-pool-24x32-filled%d", pre), fmtv("all sequences of %d operations after %d allocations", th ? 7 : 6, pre),
          [=](mc::Ctx& c) { fsp_body<24, 1>(c, th ? 7 : 6, pre); });
    for (int pre : {0, 31, 63, 127})
      add(fmtv("bitmap-pool-40x64-filled%d", pre), fmtv("all sequences of %d operations after %d allocations", th ? 6 : 5, pre),
          [=](mc::Ctx& c) { fsp_body<40, 2>(c, th ? 6 : 5, pre); });
    add("bitmap-pool-default", "the size used by the list pool: fills across the 2048-slot boundary, all sequences of 3 operations",
        [=](mc::Ctx& c) { fsp_body<40, 64>(c, 3, 2047); });
    add("lowest-set-bit", "all 2^32 words", ffs_body, 1, 100000);
  }
  return v;
}

} // namespace

int main(int argc, char** argv)
{
  setenv("UMPIRE_LOG_LEVEL", "ERROR", 1);
  umpire::log().rdbuf(nullptr);
  umpire::error().rdbuf(nullptr);
  return mc::mc_main(argc, argv, make);
}
