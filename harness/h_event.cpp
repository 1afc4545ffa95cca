// P23: the event log.
//
// Every history is a program executed in a process of its own, with recording
// switched on (and, for a part, off).  The program notes what it did; after it
// ended normally, its log is read by a strict JSON reader written for this
// purpose and by the library's own reader, and compared with those notes.
#include "mc.hpp"

#include <dirent.h>

#include <map>
#include <memory>
#include <typeinfo>

#include "camp/camp.hpp"
#include "camp/resource.hpp"
#include "umpire/Allocator.hpp"
#include "umpire/ResourceManager.hpp"
#include "umpire/Umpire.hpp"
#include "umpire/event/event.hpp"
#include "umpire/event/json_file_store.hpp"
#include "umpire/strategy/AlignedAllocator.hpp"
#include "umpire/strategy/DynamicPoolList.hpp"
#include "umpire/strategy/FixedPool.hpp"
#include "umpire/strategy/MixedPool.hpp"
#include "umpire/strategy/MonotonicAllocationStrategy.hpp"
#include "umpire/strategy/NamedAllocationStrategy.hpp"
#include "umpire/strategy/QuickPool.hpp"
#include "umpire/strategy/SizeLimiter.hpp"
#include "umpire/strategy/SlotPool.hpp"
#include "umpire/strategy/ThreadSafeAllocator.hpp"

using umpire::Allocator;
using umpire::ResourceManager;
namespace st = umpire::strategy;

#define REQ(cond, msg) c.require_f((cond), [&] { return std::string(msg); })

namespace {

template <typename T>
std::string S(const T& x)
{
  std::ostringstream s;
  s << x;
  return s.str();
}

std::string show(const std::string& s)
{
  std::string r;
  char b[8];
  for (unsigned char c : s) {
    if (c >= 32 && c < 127)
      r += (char)c;
    else {
      snprintf(b, sizeof b, "\\x%02x", c);
      r += b;
    }
  }
  if (r.size() > 300)
    r = r.substr(0, 300) + "...";
  return "'" + r + "'";
}

std::string hex(const std::string& s)
{
  static const char* d = "0123456789abcdef";
  std::string r = "x";
  for (unsigned char c : s) {
    r += d[c >> 4];
    r += d[c & 15];
  }
  return r;
}
std::string unhex(const std::string& s)
{
  std::string r;
  auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
  for (size_t i = 1; i + 1 < s.size(); i += 2)
    r += (char)(v(s[i]) * 16 + v(s[i + 1]));
  return r;
}

bool utf8(const std::string& s)
{
  for (size_t i = 0; i < s.size();) {
    unsigned char c = s[i];
    int n = c < 0x80 ? 0 : c >= 0xc2 && c <= 0xdf ? 1 : c >= 0xe0 && c <= 0xef ? 2 : c >= 0xf0 && c <= 0xf4 ? 3 : -1;
    if (n < 0 || i + n >= s.size())
      return false;
    for (int k = 1; k <= n; ++k)
      if (((unsigned char)s[i + k] & 0xc0) != 0x80)
        return false;
    unsigned char d = n ? (unsigned char)s[i + 1] : 0;
    if ((c == 0xe0 && d < 0xa0) || (c == 0xed && d > 0x9f) || (c == 0xf0 && d < 0x90) || (c == 0xf4 && d > 0x8f))
      return false;
    i += n + 1;
  }
  return true;
}

// ------------------------------------------------------------ JSON (RFC 8259)

struct Json {
  enum T { Null, Bool, Num, Str, Arr, Obj } t{Null};
  std::string s; // string value, or the number's text
  std::vector<std::pair<std::string, Json>> o;
  std::vector<Json> a;
  const Json* get(const std::string& k) const
  {
    for (auto& x : o)
      if (x.first == k)
        return &x.second;
    return nullptr;
  }
};

struct Parser {
  const std::string& in;
  size_t i{0};
  std::string err;
  explicit Parser(const std::string& s) : in(s)
  {
  }
  bool fail(const std::string& e)
  {
    if (err.empty())
      err = e + " at character " + S(i);
    return false;
  }
  void ws()
  {
    while (i < in.size() && (in[i] == ' ' || in[i] == '\t' || in[i] == '\r' || in[i] == '\n'))
      ++i;
  }
  bool lit(const char* w)
  {
    size_t n = strlen(w);
    if (in.compare(i, n, w))
      return fail("unknown word");
    i += n;
    return true;
  }
  static void put(std::string& s, unsigned u)
  {
    if (u < 0x80)
      s += (char)u;
    else if (u < 0x800) {
      s += (char)(0xc0 | (u >> 6));
      s += (char)(0x80 | (u & 63));
    } else if (u < 0x10000) {
      s += (char)(0xe0 | (u >> 12));
      s += (char)(0x80 | ((u >> 6) & 63));
      s += (char)(0x80 | (u & 63));
    } else {
      s += (char)(0xf0 | (u >> 18));
      s += (char)(0x80 | ((u >> 12) & 63));
      s += (char)(0x80 | ((u >> 6) & 63));
      s += (char)(0x80 | (u & 63));
    }
  }
  bool hex4(unsigned& u)
  {
    u = 0;
    for (int k = 0; k < 4; ++k, ++i) {
      if (i >= in.size() || !isxdigit((unsigned char)in[i]))
        return fail("bad \\u escape");
      char c = (char)tolower(in[i]);
      u = u * 16 + (c <= '9' ? c - '0' : c - 'a' + 10);
    }
    return true;
  }
  bool str(std::string& s)
  {
    if (i >= in.size() || in[i] != '"')
      return fail("string expected");
    ++i;
    size_t from = i;
    for (;;) {
      if (i >= in.size())
        return fail("unterminated string");
      unsigned char c = in[i];
      if (c == '"')
        break;
      if (c < 0x20)
        return fail("raw control character in a string");
      if (c != '\\') {
        s += (char)c;
        ++i;
        continue;
      }
      ++i;
      if (i >= in.size())
        return fail("unterminated escape");
      char e = in[i++];
      switch (e) {
        case '"':
        case '\\':
        case '/':
          s += e;
          break;
        case 'b':
          s += '\b';
          break;
        case 'f':
          s += '\f';
          break;
        case 'n':
          s += '\n';
          break;
        case 'r':
          s += '\r';
          break;
        case 't':
          s += '\t';
          break;
        case 'u': {
          unsigned u;
          if (!hex4(u))
            return false;
          if (u >= 0xd800 && u < 0xdc00) {
            unsigned v;
            if (in.compare(i, 2, "\\u"))
              return fail("lone surrogate");
            i += 2;
            if (!hex4(v))
              return false;
            if (v < 0xdc00 || v > 0xdfff)
              return fail("lone surrogate");
            u = 0x10000 + ((u - 0xd800) << 10) + (v - 0xdc00);
          } else if (u >= 0xdc00 && u < 0xe000)
            return fail("lone surrogate");
          put(s, u);
          break;
        }
        default:
          return fail("unknown escape");
      }
    }
    if (!utf8(in.substr(from, i - from)))
      return fail("a string is not UTF-8");
    ++i;
    return true;
  }
  bool num(Json& j)
  {
    size_t b = i;
    if (in[i] == '-')
      ++i;
    if (i >= in.size() || !isdigit((unsigned char)in[i]))
      return fail("bad number");
    if (in[i] == '0')
      ++i;
    else
      while (i < in.size() && isdigit((unsigned char)in[i]))
        ++i;
    if (i < in.size() && in[i] == '.') {
      ++i;
      if (i >= in.size() || !isdigit((unsigned char)in[i]))
        return fail("bad number");
      while (i < in.size() && isdigit((unsigned char)in[i]))
        ++i;
    }
    if (i < in.size() && (in[i] == 'e' || in[i] == 'E')) {
      ++i;
      if (i < in.size() && (in[i] == '+' || in[i] == '-'))
        ++i;
      if (i >= in.size() || !isdigit((unsigned char)in[i]))
        return fail("bad number");
      while (i < in.size() && isdigit((unsigned char)in[i]))
        ++i;
    }
    j.t = Json::Num;
    j.s = in.substr(b, i - b);
    return true;
  }
  bool value(Json& j)
  {
    ws();
    if (i >= in.size())
      return fail("value expected");
    switch (in[i]) {
      case '{':
        j.t = Json::Obj;
        ++i;
        ws();
        if (i < in.size() && in[i] == '}') {
          ++i;
          return true;
        }
        for (;;) {
          std::string k;
          ws();
          if (!str(k))
            return false;
          ws();
          if (i >= in.size() || in[i] != ':')
            return fail("':' expected");
          ++i;
          Json v;
          if (!value(v))
            return false;
          if (j.get(k))
            return fail("a key occurs twice");
          j.o.emplace_back(k, v);
          ws();
          if (i < in.size() && in[i] == ',') {
            ++i;
            continue;
          }
          if (i < in.size() && in[i] == '}') {
            ++i;
            return true;
          }
          return fail("',' or '}' expected");
        }
      case '[':
        j.t = Json::Arr;
        ++i;
        ws();
        if (i < in.size() && in[i] == ']') {
          ++i;
          return true;
        }
        for (;;) {
          Json v;
          if (!value(v))
            return false;
          j.a.push_back(v);
          ws();
          if (i < in.size() && in[i] == ',') {
            ++i;
            continue;
          }
          if (i < in.size() && in[i] == ']') {
            ++i;
            return true;
          }
          return fail("',' or ']' expected");
        }
      case '"':
        j.t = Json::Str;
        return str(j.s);
      case 't':
        j.t = Json::Bool;
        return lit("true");
      case 'f':
        j.t = Json::Bool;
        return lit("false");
      case 'n':
        return lit("null");
      default:
        return num(j);
    }
  }
  bool document(Json& j)
  {
    if (!value(j))
      return false;
    ws();
    if (i != in.size())
      return fail("characters after the value");
    return true;
  }
};

// ------------------------------------------------------------------- events

struct Ev {
  std::string name, cat;
  std::map<std::string, std::string> s, t; // "ptr:<hex>" stands for a pointer, "any:" for anything
  std::map<std::string, uint64_t> n;
  std::string text() const
  {
    std::string r = name + "(";
    for (auto& x : s)
      r += " " + x.first + "=" + show(x.second);
    for (auto& x : n)
      r += " " + x.first + "=" + S(x.second);
    for (auto& x : t)
      r += " #" + x.first + "=" + show(x.second);
    return r + " )";
  }
  std::string ser() const
  {
    std::string r = hex(name) + " " + hex(cat);
    for (auto& x : s)
      r += " s " + hex(x.first) + " " + hex(x.second);
    for (auto& x : t)
      r += " t " + hex(x.first) + " " + hex(x.second);
    for (auto& x : n)
      r += " n " + hex(x.first) + " " + S(x.second);
    return r;
  }
  static Ev parse(std::istringstream& in)
  {
    Ev e;
    std::string a, k, v;
    in >> a;
    e.name = unhex(a);
    in >> a;
    e.cat = unhex(a);
    while (in >> a >> k >> v) {
      if (a == "s")
        e.s[unhex(k)] = unhex(v);
      else if (a == "t")
        e.t[unhex(k)] = unhex(v);
      else
        e.n[unhex(k)] = strtoull(v.c_str(), nullptr, 10);
    }
    return e;
  }
};

std::string P(const void* p)
{
  char b[40];
  snprintf(b, sizeof b, "ptr:%lx", (unsigned long)p);
  return b;
}
// a string argument as the log should have it
std::string N(const std::string& s)
{
  return utf8(s) ? s : "any:";
}

bool same_string(const std::string& want, const std::string& got)
{
  if (want == "any:")
    return true;
  if (want.compare(0, 4, "ptr:") == 0) {
    unsigned long w = strtoul(want.c_str() + 4, nullptr, 16), g;
    if (got == "(nil)" || got == "0")
      g = 0;
    else {
      if (got.compare(0, 2, "0x"))
        return false;
      char* end;
      g = strtoul(got.c_str() + 2, &end, 16);
      if (*end)
        return false;
    }
    return w == g;
  }
  return want == got;
}

// does the logged event say (at least) what it has to say?
bool says(const Ev& got, const Ev& want)
{
  if (got.name != want.name)
    return false;
  if (!want.cat.empty() && got.cat != want.cat)
    return false;
  for (auto& x : want.s) {
    auto i = got.s.find(x.first);
    if (i == got.s.end() || !same_string(x.second, i->second))
      return false;
  }
  for (auto& x : want.t) {
    auto i = got.t.find(x.first);
    if (i == got.t.end() || !same_string(x.second, i->second))
      return false;
  }
  for (auto& x : want.n) {
    auto i = got.n.find(x.first);
    if (i == got.n.end() || i->second != x.second)
      return false;
  }
  return true;
}

// what one operation has to log
struct Notes {
  std::vector<Ev> must;     // these, in order
  std::vector<Ev> may;      // each of these at most once
  std::vector<std::string> loose; // a failed operation may leave one event of each of these names
  std::string what;
};

// ------------------------------------------------------------------ programs

enum K {
  MAKE,
  ALLOC,
  NALLOC,
  FREE,
  RMFREE,
  COPY,
  COPYA,
  SET,
  SETA,
  REALLOC,
  REALLOCA,
  REALLOCW,
  REALLOCWA,
  MOVE,
  COALESCE,
  RELEASE,
  DEFAULT,
  MARK,
  REGISTER,
  DEREGISTER,
  RESOURCE
};
enum Strat { QUICK, LIST, FIXED, LIMIT, MONO, TS, ALIGNED, MIXED, NAMED, SLOT, QUICK_UNTRACKED, NSTRAT };
const char* const kname[] = {"make", "allocate", "named allocate", "deallocate", "rm deallocate", "copy", "copy async", "memset", "memset async",
                             "reallocate", "reallocate async", "reallocate with", "reallocate with async", "move", "coalesce", "release",
                             "set default", "mark", "register", "deregister", "make resource"};
const char* const sname[] = {"QuickPool", "DynamicPoolList", "FixedPool", "SizeLimiter", "Monotonic", "ThreadSafe", "Aligned", "MixedPool",
                             "Named", "SlotPool", "untracked QuickPool"};

struct Op {
  K k{ALLOC};
  int h{1};          // 0 HOST, 1 last, 2 first made
  int p{0}, q{0};    // 0 last, 1 first, 2 inside the last, 3 null, 4 freed, 5 foreign
  size_t n{0};
  int v{0};
  std::string s;
  std::string text() const
  {
    return std::string(kname[k]) + (k == MAKE ? std::string(" ") + sname[v] : "") + " h" + S(h) + " p" + S(p) + " q" + S(q) + " n=" + S(n) + " v=" + S(v) + " " + show(s);
  }
  std::string ser() const
  {
    return S((int)k) + " " + S(h) + " " + S(p) + " " + S(q) + " " + S(n) + " " + S(v) + " " + hex(s);
  }
  static Op parse(std::istringstream& in)
  {
    Op o;
    int k;
    std::string s;
    in >> k >> o.h >> o.p >> o.q >> o.n >> o.v >> s;
    o.k = (K)k;
    o.s = unhex(s);
    return o;
  }
};

alignas(64) unsigned char g_foreign[64];

struct Program {
  std::string& out;
  std::vector<Allocator> h;
  std::vector<std::string> types;
  struct B {
    unsigned char* p;
    size_t n;
    int h;
    bool live;
  };
  std::vector<B> b;
  int made{0};
  bool foreign{false};
  Notes cur;
  explicit Program(std::string& o) : out(o)
  {
  }
  void result(const std::string& s)
  {
    out += "R " + s + "\n";
  }
  void begin(const std::string& what)
  {
    out += "O " + hex(what) + "\n";
  }
  void must(const Ev& e)
  {
    out += "M " + e.ser() + "\n";
  }
  void may(const Ev& e)
  {
    out += "Y " + e.ser() + "\n";
  }
  void loose(const std::string& n)
  {
    out += "L " + hex(n) + "\n";
  }
  static Ev ev(const std::string& name)
  {
    Ev e;
    e.name = name;
    e.cat = "operation";
    return e;
  }
  void* ref(int i)
  {
    return (void*)h[i].getAllocationStrategy();
  }
  int handle(int which)
  {
    if (which == 0)
      return 0;
    if (h.size() < 2)
      return -1;
    return which == 1 ? (int)h.size() - 1 : 1;
  }
  bool ptr(int which, unsigned char*& p, int& i)
  {
    i = -1;
    p = nullptr;
    if (which == 3)
      return true;
    if (which == 5) {
      p = g_foreign;
      return true;
    }
    if (which == 4) {
      for (int k = (int)b.size() - 1; k >= 0; --k)
        if (!b[k].live) {
          p = b[k].p;
          for (auto& x : b)
            if (x.live && x.p <= p && p <= x.p + x.n)
              return false;
          return true;
        }
      return false;
    }
    if (which == 1) {
      for (int k = 0; k < (int)b.size(); ++k)
        if (b[k].live) {
          i = k;
          p = b[k].p;
          return true;
        }
      return false;
    }
    for (int k = (int)b.size() - 1; k >= 0; --k)
      if (b[k].live) {
        i = k;
        p = b[k].p;
        if (which == 2) {
          if (b[k].n < 2)
            return false;
          p += 1 + b[k].n / 3;
        }
        return true;
      }
    return false;
  }
  template <typename T, bool tracked = true, typename... A>
  void make(const std::string& name, int parent, A... args)
  {
    Allocator a = ResourceManager::getInstance().makeAllocator<T, tracked>(name, h[parent], args...);
    Ev e = ev("make_allocator");
    e.s["allocator_ref"] = P(a.getAllocationStrategy());
    e.s["type"] = typeid(T).name();
    e.n["introspection"] = tracked;
    e.s["arg0"] = N(h[parent].getName());
    int k = 1;
    for (size_t x : std::vector<size_t>{(size_t)args...})
      e.n["arg" + S(k++)] = x;
    e.t["allocator_name"] = N(name);
    must(e);
    h.push_back(a);
  }
  void step(const Op& o)
  {
    auto& rm = ResourceManager::getInstance();
    static camp::resources::Resource ctx{camp::resources::Host::get_default()};
    begin(o.text());
    int i = handle(o.h);
    unsigned char *p, *q;
    int ip, iq;
    bool ok = true;
    const size_t mark = out.size();
    try {
      switch (o.k) {
        case MAKE: {
          if (i < 0)
            return na();
          std::string n = o.s.empty() ? "A" + S(made) : o.s;
          ++made;
          switch ((Strat)o.v) {
            case QUICK:
              make<st::QuickPool>(n, i, (size_t)256, (size_t)512, (size_t)32);
              break;
            case LIST:
              make<st::DynamicPoolList>(n, i, (size_t)128, (size_t)1024);
              break;
            case FIXED:
              make<st::FixedPool>(n, i, (size_t)24, (size_t)64);
              break;
            case LIMIT:
              make<st::SizeLimiter>(n, i, (size_t)4096);
              break;
            case MONO:
              make<st::MonotonicAllocationStrategy>(n, i, (size_t)8192);
              break;
            case TS:
              make<st::ThreadSafeAllocator>(n, i);
              break;
            case ALIGNED:
              make<st::AlignedAllocator>(n, i, (size_t)64);
              break;
            case MIXED:
              make<st::MixedPool>(n, i);
              break;
            case NAMED:
              make<st::NamedAllocationStrategy>(n, i);
              break;
            case SLOT:
              make<st::SlotPool>(n, i, (size_t)7);
              break;
            default:
              make<st::QuickPool, false>(n, i);
          }
          result(show(n) + " " + S(h.back().getId()));
          break;
        }
        case ALLOC:
        case NALLOC: {
          if (i < 0)
            return na();
          p = (unsigned char*)(o.k == ALLOC ? h[i].allocate(o.n) : h[i].allocate(o.s, o.n));
          Ev e = ev(o.k == ALLOC ? "allocate" : "named_allocate");
          e.n["size"] = o.n;
          e.s["allocator_ref"] = P(ref(i));
          e.s["pointer"] = P(p);
          if (o.k == NALLOC)
            e.s["allocation_name"] = N(o.s);
          must(e);
          memset(p, 1 + (int)b.size(), o.n);
          b.push_back({p, o.n, i, true});
          result("allocated");
          break;
        }
        case FREE:
        case RMFREE: {
          if (!ptr(o.p, p, ip) || (o.k == RMFREE && ip >= 0 && !h[b[ip].h].getAllocationStrategy()->isTracked()))
            return na();
          int a = ip >= 0 ? b[ip].h : 0;
          if (o.k == FREE)
            h[a].deallocate(p);
          else
            rm.deallocate(p);
          Ev e = ev("deallocate");
          e.s["allocator_ref"] = P(ref(a));
          e.s["pointer"] = P(p);
          if (p)
            must(e);
          else
            loose("deallocate"); // freeing nothing
          if (ip >= 0)
            b[ip].live = false;
          result("freed");
          break;
        }
        case COPY:
        case COPYA: {
          if (!ptr(o.p, p, ip) || !ptr(o.q, q, iq) || ip < 0 || iq < 0)
            return na();
          if (o.k == COPY)
            rm.copy(p, q, o.n);
          else
            rm.copy(p, q, ctx, o.n);
          Ev e = ev("copy");
          e.s["src"] = P(q);
          e.s["dst"] = P(p);
          e.n["src_offset"] = q - b[iq].p;
          e.n["dst_offset"] = p - b[ip].p;
          e.n["size"] = o.n ? o.n : b[iq].n - (q - b[iq].p);
          e.s["src_allocator_ref"] = P(ref(b[iq].h));
          e.s["dst_allocator_ref"] = P(ref(b[ip].h));
          e.t["src_allocator_name"] = N(h[b[iq].h].getName());
          e.t["dst_allocator_name"] = N(h[b[ip].h].getName());
          must(e);
          result("copied");
          break;
        }
        case SET:
        case SETA: {
          if (!ptr(o.p, p, ip) || ip < 0)
            return na();
          if (o.k == SET)
            rm.memset(p, o.v, o.n);
          else
            rm.memset(p, o.v, ctx, o.n);
          Ev e = ev("memset");
          e.s["ptr"] = P(p);
          e.n["value"] = (uint64_t)(int64_t)o.v;
          e.n["size"] = o.n ? o.n : b[ip].n - (p - b[ip].p);
          e.s["allocator_ref"] = P(ref(b[ip].h));
          e.t["allocator_name"] = N(h[b[ip].h].getName());
          must(e);
          result("set");
          break;
        }
        case REALLOC:
        case REALLOCA:
        case REALLOCW:
        case REALLOCWA: {
          if (!ptr(o.p, p, ip))
            return na();
          const bool with = o.k == REALLOCW || o.k == REALLOCWA;
          int a = with ? i : ip >= 0 ? b[ip].h : -1;
          if (with && i < 0)
            return na();
          if (!p && !with)
            a = def();
          size_t old = ip >= 0 ? b[ip].n : 0;
          unsigned char* r = (unsigned char*)(o.k == REALLOC    ? rm.reallocate(p, o.n)
                                              : o.k == REALLOCA ? rm.reallocate(p, o.n, ctx)
                                              : o.k == REALLOCW ? rm.reallocate(p, o.n, h[i])
                                                                : rm.reallocate(p, o.n, h[i], ctx));
          Ev e = ev("reallocate");
          e.s["current_ptr"] = P(p);
          e.n["size"] = o.n;
          e.s["allocator_ref"] = P(ref(a));
          e.t["allocator_name"] = N(h[a].getName());
          must(e);
          Ev f = ev("reallocate");
          f.s["new_ptr"] = P(r);
          f.s["allocator_ref"] = P(ref(a));
          must(f);
          // what it is made of may be logged as well
          Ev x = ev("allocate");
          x.n["size"] = o.n;
          x.s["allocator_ref"] = P(ref(a));
          x.s["pointer"] = P(r);
          may(x);
          Ev y = ev("deallocate");
          y.s["allocator_ref"] = P(ref(a));
          y.s["pointer"] = P(p);
          may(y);
          Ev z = ev("copy");
          z.s["src"] = P(p);
          z.s["dst"] = P(r);
          z.n["size"] = std::min(old, o.n);
          may(z);
          if (ip >= 0)
            b[ip].live = false;
          for (size_t k = old; k < o.n; ++k)
            r[k] = 9;
          b.push_back({r, o.n, a, true});
          result("reallocated");
          break;
        }
        case MOVE: {
          if (!ptr(o.p, p, ip) || ip < 0 || i < 0)
            return na();
          unsigned char* r = (unsigned char*)rm.move(p, h[i]);
          const int from = b[ip].h;
          const bool stays = ref(from) == ref(i);
          Ev x = ev("allocate");
          x.n["size"] = b[ip].n;
          x.s["allocator_ref"] = P(ref(i));
          x.s["pointer"] = P(r);
          Ev z = ev("copy");
          z.s["src"] = P(p);
          z.s["dst"] = P(r);
          z.n["size"] = b[ip].n;
          Ev y = ev("deallocate");
          y.s["allocator_ref"] = P(ref(from));
          y.s["pointer"] = P(p);
          if (!stays) {
            may(x);
            may(z);
            may(y);
          }
          Ev e = ev("move");
          e.s["ptr"] = P(p);
          e.s["allocator_ref"] = P(ref(i));
          e.t["allocator_name"] = N(h[i].getName());
          if (!stays)
            e.s["result"] = P(r);
          must(e);
          if (!stays) {
            size_t n = b[ip].n;
            b[ip].live = false;
            b.push_back({r, n, i, true});
          }
          result("moved");
          break;
        }
        case COALESCE: {
          if (i < 0)
            return na();
          if (umpire::try_coalesce(h[i])) {
            Ev e = ev("coalesce");
            e.t["allocator_name"] = N(h[i].getName());
            must(e);
            result("coalesced");
          } else
            result("not coalesced");
          break;
        }
        case RELEASE: {
          if (i < 0)
            return na();
          h[i].release();
          Ev e = ev("release");
          e.s["allocator_ref"] = P(ref(i));
          e.t["allocator_name"] = N(h[i].getName());
          must(e);
          result("released");
          break;
        }
        case DEFAULT: {
          if (i < 0)
            return na();
          rm.setDefaultAllocator(h[i]);
          Ev e = ev("set_default_allocator");
          e.s["allocator_ref"] = P(ref(i));
          e.t["allocator_name"] = N(h[i].getName());
          must(e);
          result("default");
          break;
        }
        case MARK: {
          umpire::mark_event(o.s);
          Ev e;
          e.name = "event";
          e.cat = "metadata";
          e.s["name"] = N(o.s);
          must(e);
          result("marked");
          break;
        }
        case REGISTER: {
          if (i < 0 || foreign)
            return na();
          umpire::register_external_allocation(g_foreign, umpire::util::AllocationRecord{g_foreign, 48, h[i].getAllocationStrategy()});
          Ev e = ev("register_external_allocation");
          e.s["allocator_ref"] = P(ref(i));
          e.s["pointer"] = P(g_foreign);
          e.n["size"] = 48;
          e.t["allocator_name"] = N(h[i].getName());
          must(e);
          foreign = true;
          result("registered");
          break;
        }
        case DEREGISTER: {
          if (!foreign)
            return na();
          umpire::deregister_external_allocation(g_foreign);
          must(ev("deregister_external_allocation"));
          foreign = false;
          result("deregistered");
          break;
        }
        case RESOURCE: {
          Allocator a = rm.makeResource(o.s);
          Ev e = ev("make_memory_resource");
          e.s["allocator_ref"] = P(a.getAllocationStrategy());
          e.n["introspection"] = 1;
          e.t["allocator_name"] = o.s;
          must(e);
          h.push_back(a);
          result("resource " + S(a.getId()));
          break;
        }
      }
    } catch (const std::exception&) {
      ok = false;
      out.resize(mark);
      switch (o.k) {
        case FREE:
        case RMFREE:
          loose("deallocate");
          break;
        case COPY:
        case COPYA:
          loose("copy");
          break;
        case SET:
        case SETA:
          loose("memset");
          break;
        case REALLOC:
        case REALLOCA:
        case REALLOCW:
        case REALLOCWA:
        case MOVE:
          loose("reallocate");
          loose("copy");
          loose("move");
          loose("allocate");
          loose("deallocate");
          break;
        case RELEASE:
          loose("release");
          break;
        case REGISTER:
          loose("register_external_allocation");
          break;
        case DEREGISTER:
          loose("deregister_external_allocation");
          break;
        default:
          break; // nothing was created, nothing was allocated: nothing to log
      }
      result("error");
    }
    (void)ok;
    std::string t;
    for (auto& a : h)
      t += " " + show(a.getName()) + ":" + S(a.getCurrentSize()) + "/" + S(a.getActualSize()) + "/" + S(a.getHighWatermark()) + "/" + S(a.getAllocationCount());
    for (auto& x : b)
      if (x.live) {
        mc::Hash hh;
        hh.add(std::string((char*)x.p, x.n));
        t += " [" + S(x.n) + " " + S(hh.h) + "]";
      }
    result(t);
  }
  int def()
  {
    void* d = (void*)ResourceManager::getInstance().getDefaultAllocator().getAllocationStrategy();
    for (int k = 0; k < (int)h.size(); ++k)
      if (ref(k) == d)
        return k;
    return 0;
  }
  void na()
  {
    result("n/a");
  }
  void run(const std::vector<Op>& prog)
  {
    begin("get HOST");
    h.push_back(ResourceManager::getInstance().getAllocator("HOST"));
    Ev e = ev("make_memory_resource");
    e.s["allocator_ref"] = P(ref(0));
    e.n["introspection"] = 1;
    e.t["allocator_name"] = "HOST";
    must(e);
    for (auto& o : prog)
      step(o);
  }
};

constexpr size_t CAP = 1u << 18;
char* g_out = nullptr;
std::string g_dir;
char g_self[4096];

[[noreturn]] void child_main(const std::vector<Op>& prog, const std::string& dir, char* out)
{
  setenv("UMPIRE_OUTPUT_DIR", dir.c_str(), 1);
  setenv("UMPIRE_OUTPUT_BASENAME", "ev", 1);
  // logging of errors at the end of the process is not of interest here
  std::string text;
  {
    Program p(text);
    p.run(prog);
    for (auto& x : p.b) // the blocks that are left are not leaks of the library
      (void)x;
  }
  if (text.size() + 8 < CAP) {
    memcpy(out, text.data(), text.size());
    memcpy(out + text.size(), "END\n", 5);
  }
  fflush(stdout);
  exit(0); // ends like any program, which writes out the log
}

std::string read_file(const std::string& f, bool& there)
{
  std::string r;
  int fd = open(f.c_str(), O_RDONLY);
  there = fd >= 0;
  if (fd < 0)
    return r;
  char buf[65536];
  ssize_t n;
  while ((n = read(fd, buf, sizeof buf)) > 0)
    r.append(buf, (size_t)n);
  close(fd);
  return r;
}

std::string dir_of()
{
  static pid_t owner = 0;
  if (g_dir.empty() || owner != getpid()) {
    owner = getpid();
    const char* s = getenv("VERIF_SCRATCH");
    g_dir = std::string(s ? s : "/tmp") + "/ev-" + S(owner);
    mkdir(g_dir.c_str(), 0700);
  }
  return g_dir;
}

std::vector<std::string> clean(const std::string& dir)
{
  std::vector<std::string> v;
  if (DIR* d = opendir(dir.c_str())) {
    while (dirent* e = readdir(d)) {
      std::string n = e->d_name;
      if (n != "." && n != "..") {
        v.push_back(n);
        unlink((dir + "/" + n).c_str());
      }
    }
    closedir(d);
  }
  return v;
}

struct Ran {
  std::string notes;
  std::string end; // how it ended, empty if normally
  std::string log;
  bool has_log{false};
  std::vector<std::string> files;
  std::vector<umpire::event::event> lib;
  std::string lib_error;
};

// env: 0 recording on, 1 off, 2 UMPIRE_REPLAY only, 3 both (all but 0 by exec)
Ran run_program(mc::Ctx& c, const std::vector<Op>& prog, int env)
{
  if (!g_out) {
    g_out = (char*)mmap(nullptr, CAP, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (g_out == MAP_FAILED)
      c.prune("no memory");
  }
  std::string dir = dir_of();
  Ran r;
  g_out[0] = 0;
  fflush(stdout);
  fflush(stderr);
  std::string file = dir + "/notes";
  pid_t pid = fork();
  if (pid < 0)
    c.prune("fork failed");
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    alarm(15);
    int fd = open("/dev/null", O_RDWR);
    dup2(fd, 1);
    dup2(fd, 2);
    if (env == 0)
      child_main(prog, dir, g_out);
    std::string text;
    for (auto& o : prog)
      text += o.ser() + "\n";
    int pf = open((dir + "/program").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (write(pf, text.data(), text.size()) < 0)
      _exit(9);
    close(pf);
    unsetenv("UMPIRE_EVENTS");
    unsetenv("UMPIRE_REPLAY");
    setenv("H_EVENT_CHILD", dir.c_str(), 1);
    if (env == 2 || env == 3)
      setenv("UMPIRE_REPLAY", "", 1);
    if (env == 3)
      setenv("UMPIRE_EVENTS", "0", 1);
    execl(g_self, g_self, (char*)nullptr);
    _exit(9);
  }
  int stt = 0;
  while (waitpid(pid, &stt, 0) < 0 && errno == EINTR) {
  }
  if (!(WIFEXITED(stt) && WEXITSTATUS(stt) == 0))
    r.end = WIFSIGNALED(stt) ? "signal " + S(WTERMSIG(stt)) : "status " + S(WEXITSTATUS(stt));
  bool there;
  r.notes = env == 0 ? std::string(g_out) : read_file(file, there);
  const std::string name = "ev." + S(pid) + ".0.stats";
  r.log = read_file(dir + "/" + name, r.has_log);
  if (r.has_log) {
    try {
      umpire::event::json_file_store store(dir + "/" + name, true);
      r.lib = store.get_events();
    } catch (const std::exception& e) {
      r.lib_error = e.what();
    }
  }
  for (auto& f : clean(dir))
    if (f != "notes" && f != "program")
      r.files.push_back(f == name ? "the log" : f);
  return r;
}

void get_strings(mc::Ctx& c, const Json* j, std::map<std::string, std::string>& m, const std::string& line)
{
  if (!j)
    return;
  REQ(j->t == Json::Obj, "a group of arguments is no object: " + show(line));
  for (auto& x : j->o) {
    REQ(x.second.t == Json::Str, "an argument is no string: " + show(line));
    m[x.first] = x.second.s;
  }
}

std::vector<Ev> read_log(mc::Ctx& c, const std::string& log)
{
  std::vector<Ev> v;
  size_t i = 0;
  while (i < log.size()) {
    size_t e = log.find('\n', i);
    REQ(e != std::string::npos, "the log ends in the middle of a line: " + show(log.substr(i)));
    std::string line = log.substr(i, e - i);
    i = e + 1;
    Json j;
    Parser p(line);
    bool ok = p.document(j);
    REQ(ok, "a line of the log is not JSON (" + p.err + "): " + show(line));
    REQ(j.t == Json::Obj, "a line of the log is not an object: " + show(line));
    Ev x;
    for (const char* k : {"name", "category"}) {
      const Json* f = j.get(k);
      REQ(f && f->t == Json::Str, std::string("an event without ") + k + ": " + show(line));
      (k[0] == 'n' ? x.name : x.cat) = f->s;
    }
    const Json* ts = j.get("timestamp");
    REQ(ts && ts->t == Json::Num && ts->s[0] != '-' && ts->s.find_first_not_of("0123456789") == std::string::npos,
        "an event without timestamp: " + show(line));
    get_strings(c, j.get("string_args"), x.s, line);
    get_strings(c, j.get("tags"), x.t, line);
    if (const Json* n = j.get("numeric_args")) {
      REQ(n->t == Json::Obj, "numeric_args is no object: " + show(line));
      for (auto& f : n->o) {
        REQ(f.second.t == Json::Num && f.second.s.find_first_not_of("0123456789") == std::string::npos, "a numeric argument is no number: " + show(line));
        x.n[f.first] = strtoull(f.second.s.c_str(), nullptr, 10);
      }
    }
    v.push_back(x);
  }
  return v;
}

bool fits(const std::vector<Ev>& log, size_t l, const std::vector<Notes>& ops, size_t o, size_t m, unsigned may, unsigned loose, size_t& best,
          size_t& best_op)
{
  if (l >= best) {
    best = l;
    best_op = o;
  }
  if (o == ops.size())
    return l == log.size();
  const Notes& n = ops[o];
  if (l < log.size()) {
    if (m < n.must.size() && says(log[l], n.must[m]) && fits(log, l + 1, ops, o, m + 1, may, loose, best, best_op))
      return true;
    for (size_t k = 0; k < n.may.size(); ++k)
      if (!(may & (1u << k)) && says(log[l], n.may[k]) && fits(log, l + 1, ops, o, m, may | (1u << k), loose, best, best_op))
        return true;
    for (size_t k = 0; k < n.loose.size(); ++k)
      if (!(loose & (1u << k)) && log[l].name == n.loose[k] && fits(log, l + 1, ops, o, m, may, loose | (1u << k), best, best_op))
        return true;
  }
  if (m == n.must.size() && fits(log, l, ops, o + 1, 0, 0, 0, best, best_op))
    return true;
  return false;
}

std::vector<Notes> parse_notes(const std::string& text, std::vector<std::string>& results, bool& complete)
{
  std::vector<Notes> v;
  std::istringstream in(text);
  std::string line;
  complete = false;
  while (std::getline(in, line)) {
    if (line == "END") {
      complete = true;
      break;
    }
    std::istringstream s(line.substr(2));
    std::string w;
    switch (line[0]) {
      case 'O':
        v.emplace_back();
        s >> w;
        v.back().what = unhex(w);
        results.push_back("after " + v.back().what);
        break;
      case 'M':
        v.back().must.push_back(Ev::parse(s));
        break;
      case 'Y':
        v.back().may.push_back(Ev::parse(s));
        break;
      case 'L':
        s >> w;
        v.back().loose.push_back(unhex(w));
        break;
      case 'R':
        results.push_back(line);
        break;
    }
  }
  return v;
}

std::vector<std::string> judge(mc::Ctx& c, const Ran& r)
{
  std::vector<std::string> results;
  bool complete;
  std::vector<Notes> ops = parse_notes(r.notes, results, complete);
  if (c.verbose)
    for (auto& x : results)
      c.log(x);
  REQ(r.end.empty(), "with recording on, the program ends with " + r.end + (results.empty() ? "" : "; " + results.back()));
  REQ(complete, "the program does not get to its end");
  REQ(r.has_log, "there is no log");
  REQ(r.files.size() == 1, "other files are written, too: " + r.files[0] + " " + (r.files.size() > 1 ? r.files[1] : ""));
  std::vector<Ev> log = read_log(c, r.log), rest;
  if (c.verbose)
    for (auto& e : log)
      c.log("log: " + e.text());
  for (auto& e : log)
    if (!(e.cat == "metadata" && (e.name == "version" || e.name == "mpi")))
      rest.push_back(e);
  size_t best = 0, best_op = 0;
  bool ok = fits(rest, 0, ops, 0, 0, 0, 0, best, best_op);
  REQ(ok, best < rest.size()
              ? "the log does not fit at event " + S(best) + " " + rest[best].text() + ", while looking at '" +
                    (best_op < ops.size() ? ops[best_op].what + "', which should log " + (ops[best_op].must.empty() ? "nothing" : ops[best_op].must[0].text())
                                          : std::string("the end'"))
              : "the log ends before the event of '" + (best_op < ops.size() ? ops[best_op].what : std::string("?")) + "'");
  for (auto& o : ops)
    for (auto& m : o.must)
      c.check(), (void)m;
  // the library can read its own log
  REQ(r.lib_error.empty(), "the library cannot read the log: " + r.lib_error);
  REQ(r.lib.size() == log.size(), "the library reads " + S(r.lib.size()) + " events of " + S(log.size()));
  for (size_t i = 0; i < log.size(); ++i) {
    const auto& e = r.lib[i];
    REQ(e.name == log[i].name && e.string_args == log[i].s && e.tags == log[i].t, "the library reads event " + S(i) + " differently: " + log[i].text());
    bool same = e.numeric_args.size() == log[i].n.size();
    for (auto& x : e.numeric_args)
      same = same && log[i].n.count(x.first) && log[i].n[x.first] == x.second;
    REQ(same, "the library reads the numbers of event " + S(i) + " differently: " + log[i].text());
  }
  return results;
}

void state(mc::Ctx& c, const std::vector<std::string>& results)
{
  mc::Hash h;
  for (auto& x : results)
    h.add(x);
  c.state(h.h);
}

void record(mc::Ctx& c, const std::vector<Op>& prog)
{
  Ran r = run_program(c, prog, 0);
  auto res = judge(c, r);
  state(c, res);
}

// on and off, and the ways to switch it on
void switches(mc::Ctx& c, const std::vector<Op>& prog)
{
  std::vector<std::string> res[4];
  for (int env = 0; env < 4; ++env) {
    if (env == 2 && c.tier == 0 && prog.size() > 1)
      break;
    c.log(env == 0 ? "UMPIRE_EVENTS" : env == 1 ? "recording off" : env == 2 ? "UMPIRE_REPLAY" : "both");
    Ran r = run_program(c, prog, env);
    if (env == 1) {
      bool complete;
      parse_notes(r.notes, res[1], complete);
      if (!r.end.empty() || !complete)
        c.prune("the program fails without recording, too");
      REQ(r.files.empty(), "with recording off, something is written: " + r.files[0]);
    } else
      res[env] = judge(c, r);
    if (env)
      for (size_t i = 0; i < res[0].size() || i < res[env].size(); ++i) {
        std::string a = i < res[0].size() ? res[0][i] : "(nothing)", b = i < res[env].size() ? res[env][i] : "(nothing)";
        REQ(a == b, "with recording on, '" + a + "', otherwise '" + b + "'");
      }
  }
  state(c, res[0]);
}

// ------------------------------------------------------- the store on its own

void store(mc::Ctx& c, int depth)
{
  std::string dir = dir_of();
  const std::string file = dir + "/store";
  std::vector<Ev> want;
  std::vector<int> kinds;
  static const std::vector<std::string> names = {"n", "a\"b\\c\n\t\x01 %s%n", std::string("z\0y", 3), "\xc3\xa9", "\xff\xfe", ""};
  struct In {
    int kind;
    std::string name;
    size_t n;
    void *ref, *ptr;
  };
  std::vector<In> in;
  for (int d = 0; d < depth; ++d) {
    In x;
    x.kind = c.choose(4);
    x.name = names[x.kind == 0 || x.kind == 2 ? c.choose((int)names.size()) : 0];
    static const size_t sizes[] = {0, 24, (size_t)1 << 40, ((size_t)1 << 62) + 3};
    x.n = x.kind != 3 ? sizes[c.choose(4)] : 0;
    x.ref = (void*)(0x1000 + 16 * d);
    x.ptr = c.choose(2) ? (void*)0x7fffdeadbeef : nullptr;
    in.push_back(x);
    c.step();
    c.log("insert kind " + S(x.kind) + " " + show(x.name) + " " + S(x.n));
  }
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    alarm(15);
    int fd = open("/dev/null", O_RDWR);
    dup2(fd, 2);
    try {
      umpire::event::json_file_store s(file);
      for (auto& x : in) {
        if (x.kind == 0) {
          umpire::event::event e;
          e.name = x.name;
          e.cat = umpire::event::category::statistic;
          e.string_args["s" + x.name] = x.name;
          e.numeric_args["n"] = x.n;
          e.tags["t"] = x.name;
          s.insert(e);
        } else if (x.kind == 1) {
          umpire::event::allocate e;
          e.size = x.n;
          e.ref = x.ref;
          e.ptr = x.ptr;
          s.insert(e);
        } else if (x.kind == 2) {
          umpire::event::named_allocate e;
          e.size = x.n;
          e.ref = x.ref;
          e.ptr = x.ptr;
          e.name = x.name;
          s.insert(e);
        } else {
          umpire::event::deallocate e;
          e.ref = x.ref;
          e.ptr = x.ptr;
          s.insert(e);
        }
      }
    } catch (const std::exception&) {
      _exit(7);
    }
    fflush(nullptr);
    _exit(0);
  }
  int stt = 0;
  while (waitpid(pid, &stt, 0) < 0 && errno == EINTR) {
  }
  bool there;
  std::string text = read_file(file, there);
  std::vector<umpire::event::event> lib;
  std::string err;
  try {
    umpire::event::json_file_store s(file, true);
    lib = s.get_events();
  } catch (const std::exception& e) {
    err = e.what();
  }
  unlink(file.c_str());
  REQ(WIFEXITED(stt) && WEXITSTATUS(stt) == 0,
      WIFSIGNALED(stt) ? "inserting events ends with signal " + S(WTERMSIG(stt)) : std::string("inserting an event raises an error"));
  std::vector<Ev> log = read_log(c, text);
  REQ(log.size() == in.size(), S(in.size()) + " events inserted, " + S(log.size()) + " in the file");
  REQ(err.empty(), "reading the file raises an error: " + err);
  REQ(lib.size() == in.size(), S(in.size()) + " events inserted, " + S(lib.size()) + " read");
  for (size_t i = 0; i < in.size(); ++i) {
    const In& x = in[i];
    Ev w;
    if (x.kind == 0) {
      w.name = x.name;
      w.cat = "statistic";
      if (utf8(x.name))
        w.s["s" + x.name] = N(x.name);
      w.t["t"] = N(x.name);
      w.n["n"] = x.n;
      if (!utf8(x.name))
        w.name = log[i].name;
    } else {
      w.name = x.kind == 1 ? "allocate" : x.kind == 2 ? "named_allocate" : "deallocate";
      w.cat = "operation";
      w.s["allocator_ref"] = P(x.ref);
      w.s["pointer"] = P(x.ptr);
      if (x.kind == 2)
        w.s["allocation_name"] = N(x.name);
      if (x.kind != 3)
        w.n["size"] = x.n;
    }
    REQ(says(log[i], w), "inserted " + w.text() + ", the file has " + log[i].text());
    REQ(lib[i].name == log[i].name && lib[i].string_args == log[i].s && lib[i].tags == log[i].t,
        "inserted " + w.text() + ", the library reads " + lib[i].name);
  }
  mc::Hash h;
  for (auto& e : log)
    h.add(e.text());
  c.state(h.h);
}

// -------------------------------------------------------------------- menus

Op op(K k, int h = 1, int p = 0, int q = 0, size_t n = 0, int v = 0, const std::string& s = "")
{
  Op o;
  o.k = k;
  o.h = h;
  o.p = p;
  o.q = q;
  o.n = n;
  o.v = v;
  o.s = s;
  return o;
}

std::vector<Op> general()
{
  std::vector<Op> m;
  for (int s = 0; s < NSTRAT; ++s)
    m.push_back(op(MAKE, 0, 0, 0, 0, s));
  m.push_back(op(MAKE, 1, 0, 0, 0, LIMIT));
  m.push_back(op(MAKE, 1, 0, 0, 0, TS));
  m.push_back(op(MAKE, 1, 0, 0, 0, NAMED, "HOST")); // refused
  for (int h = 0; h < 2; ++h) {
    m.push_back(op(ALLOC, h, 0, 0, 24));
    m.push_back(op(ALLOC, h, 0, 0, 0));
    m.push_back(op(NALLOC, h, 0, 0, 24, 0, "a \"name\""));
  }
  m.push_back(op(ALLOC, 1, 0, 0, (size_t)1 << 62)); // refused
  m.push_back(op(NALLOC, 1, 0, 0, (size_t)1 << 62, 0, "x"));
  m.push_back(op(FREE, 0, 0));
  m.push_back(op(FREE, 0, 1));
  m.push_back(op(FREE, 0, 3));
  m.push_back(op(FREE, 0, 5));
  m.push_back(op(RMFREE, 0, 0));
  m.push_back(op(COALESCE, 1));
  m.push_back(op(RELEASE, 1));
  m.push_back(op(DEFAULT, 1));
  m.push_back(op(MARK, 0, 0, 0, 0, 0, "here"));
  m.push_back(op(REGISTER, 1));
  m.push_back(op(DEREGISTER));
  m.push_back(op(REALLOC, 0, 3, 0, 40));
  m.push_back(op(REALLOC, 0, 0, 0, 40));
  m.push_back(op(MOVE, 0, 0));
  m.push_back(op(MOVE, 1, 0));
  m.push_back(op(RESOURCE, 0, 0, 0, 0, 0, "NO_OP"));
  m.push_back(op(RESOURCE, 0, 0, 0, 0, 0, "FILE"));
  m.push_back(op(RESOURCE, 0, 0, 0, 0, 0, "HOST")); // refused
  return m;
}

std::vector<Op> data()
{
  std::vector<Op> m;
  for (K k : {COPY, COPYA})
    for (int p : {0, 1, 2})
      for (int q : {0, 1, 2})
        for (size_t n : {0, 7, 41})
          if (p != q)
            m.push_back(op(k, 0, p, q, n));
  for (K k : {SET, SETA})
    for (int p : {0, 1, 2})
      for (size_t n : {0, 5, 41}) {
        m.push_back(op(k, 0, p, 0, n, 3));
        m.push_back(op(k, 0, p, 0, n, -1));
      }
  for (K k : {REALLOC, REALLOCA, REALLOCW, REALLOCWA})
    for (int p : {0, 2, 3})
      for (size_t n : {0, 12, 80})
        for (int h = 0; h < (k == REALLOCW || k == REALLOCWA ? 2 : 1); ++h)
          m.push_back(op(k, h, p, 0, n));
  for (int h = 0; h < 2; ++h)
    for (int p : {0, 1, 2})
      m.push_back(op(MOVE, h, p));
  m.push_back(op(FREE, 0, 0));
  return m;
}

std::vector<mc::Config> make(const mc::Options& o)
{
  const bool T = o.tier == "thorough";
  std::vector<mc::Config> v;
  auto add = [&](const std::string& n, std::function<void(mc::Ctx&)> f, const std::string& b, int split = 2) {
    mc::Config c;
    c.name = n;
    c.body = f;
    c.bounds = b;
    c.split = split;
    c.segment = 100; // the reader leaves its file open
    v.push_back(c);
  };
  auto menu = [&](const std::string& n, const std::vector<Op>& setup, const std::vector<Op>& m, int depth,
                  void (*f)(mc::Ctx&, const std::vector<Op>&), const std::string& what) {
    add(n + "/d" + S(depth), [=](mc::Ctx& c) {
      std::vector<Op> p = setup;
      for (int d = 0; d < depth; ++d) {
        p.push_back(m[c.choose((int)m.size())]);
        c.step();
      }
      f(c, p);
    }, "all programs of " + S(depth) + " out of " + S(m.size()) + " operations after " + S(setup.size()) + " fixed ones, " + what, depth > 1 ? 2 : 1);
  };
  menu("programs", {}, general(), T ? 4 : 3, record, "recorded");
  for (int s = 0; s < NSTRAT; ++s) {
    std::vector<Op> setup{op(MAKE, 0, 0, 0, 0, s), op(ALLOC, 0, 0, 0, 40), op(NALLOC, 1, 0, 0, s == SLOT || s == FIXED ? 24 : 33, 0, "blk")};
    menu(std::string("data-") + sname[s], setup, data(), T ? 2 : 1, record, "recorded");
    if (s == QUICK && !T)
      menu(std::string("data-") + sname[s], setup, data(), 2, record, "recorded");
  }
  // a pool over its life
  {
    std::vector<Op> m;
    for (size_t n : {24, 300, 0})
      m.push_back(op(ALLOC, 1, 0, 0, n));
    m.push_back(op(FREE, 0, 0));
    m.push_back(op(FREE, 0, 1));
    m.push_back(op(COALESCE, 1));
    m.push_back(op(RELEASE, 1));
    for (int s : {QUICK, LIST})
      menu(std::string("pool-") + sname[s], {op(MAKE, 0, 0, 0, 0, s)}, m, T ? 6 : 4, record, "recorded");
  }
  // names: every character, alone and between others
  add("names", [=](mc::Ctx& c) {
    const int ch = c.choose(256);
    const int shape = c.choose(3);
    const int use = c.choose(4);
    std::string n(1, (char)ch);
    if (shape == 1)
      n = "a" + n + "b";
    else if (shape == 2)
      n = n + "\xc3\xa9" + n;
    std::vector<Op> p;
    c.log("name " + show(n) + " used for " + (use == 0 ? "an allocator" : use == 1 ? "a pool" : use == 2 ? "an allocation" : "a mark"));
    if (use == 0) {
      p = {op(MAKE, 0, 0, 0, 0, NAMED, n), op(ALLOC, 1, 0, 0, 24), op(SET, 0, 0, 0, 3, 1), op(MAKE, 1, 0, 0, 0, LIMIT), op(MOVE, 0, 0), op(DEFAULT, 1), op(RELEASE, 1)};
    } else if (use == 1) {
      p = {op(MAKE, 0, 0, 0, 0, ch % 2 ? QUICK : LIST, n), op(ALLOC, 1, 0, 0, 24), op(REALLOC, 0, 0, 0, 50), op(FREE), op(COALESCE, 1), op(REGISTER, 1), op(DEREGISTER)};
    } else if (use == 2)
      p = {op(NALLOC, 0, 0, 0, 24, 0, n), op(FREE)};
    else
      p = {op(MARK, 0, 0, 0, 0, 0, n), op(MARK, 0, 0, 0, 0, 0, "")};
    c.step();
    record(c, p);
  }, "names with each of the 256 characters, in 3 positions, of allocators, pools, allocations and marks", 1);
  add("special-names", [=](mc::Ctx& c) {
    static const std::vector<std::string> names = {"", "%s%n%d%p", "\"", "\\", "\"},{\"", "\\\"", "\\u0000", "{}", "null", "a\r\nb", std::string("a\0b", 3), std::string(300, 'x'), std::string(5000, '"'),
                                                   "\xf0\x9f\x98\x80", "\xed\xa0\x80", "\xe2\x82", "</script>", "\x7f", "/", "\xe2\x80\xa8"};
    std::vector<Op> p;
    for (int k = 0; k < 2; ++k) {
      const std::string& n = names[c.choose((int)names.size())];
      if (c.choose(2))
        p.push_back(op(NALLOC, 0, 0, 0, 24, 0, n));
      else if (!n.empty())
        p.push_back(op(MAKE, 0, 0, 0, 0, NAMED, n));
    }
    p.push_back(op(FREE));
    c.step();
    record(c, p);
  }, "all pairs of 20 awkward names for allocations and allocators", 2);
  menu("switches", {}, general(), 1, switches, "recorded and not recorded, by each variable");
  {
    // the results do not depend on recording
    std::vector<Op> m = general();
    std::vector<Op> setup{op(MAKE, 0, 0, 0, 0, QUICK), op(ALLOC, 1, 0, 0, 40), op(NALLOC, 0, 0, 0, 16, 0, "\xff\"")};
    menu("off", setup, m, T ? 3 : 2, switches, "recorded and not recorded");
    menu("off-data", setup, data(), T ? 2 : 1, switches, "recorded and not recorded");
  }
  int d = T ? 3 : 2;
  add("store/d" + S(d), [=](mc::Ctx& c) { store(c, d); }, "all sequences of " + S(d) + " insertions of the 4 kinds of event, 6 names, 4 sizes, null and other pointers", 3);
  return v;
}
} // namespace

int main(int argc, char** argv)
{
  ssize_t n = readlink("/proc/self/exe", g_self, sizeof g_self - 1);
  if (n < 0)
    return 2;
  g_self[n] = 0;
  if (const char* dir = getenv("H_EVENT_CHILD")) {
    std::string d = dir;
    bool there;
    std::istringstream in(read_file(d + "/program", there));
    std::vector<Op> prog;
    std::string line;
    while (std::getline(in, line)) {
      std::istringstream s(line);
      prog.push_back(Op::parse(s));
    }
    int fd = open((d + "/notes").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    if (fd < 0 || ftruncate(fd, CAP))
      return 9;
    char* out = (char*)mmap(nullptr, CAP, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (out == MAP_FAILED)
      return 9;
    child_main(prog, d, out);
  }
  // the library looks at the environment before main
  if (!getenv("UMPIRE_EVENTS")) {
    setenv("UMPIRE_EVENTS", "On", 1);
    execv(g_self, argv);
    return 2;
  }
  umpire::error().rdbuf(nullptr);
  return mc::mc_main(argc, argv, make);
}
