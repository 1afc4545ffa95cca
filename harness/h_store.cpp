// P32: what is put into an event store comes out of it.
//
// The stores are used as the library uses them (through a recorder and the
// builders) and read back by a store object of their own, as the replay tool
// does.  The oracle is the list of events that were put in.
#include <sys/stat.h>
#include <unistd.h>

#include <chrono>
#include <cstdio>
#include <map>
#include <string>
#include <vector>

#include "mc.hpp"
#include "umpire/Umpire.hpp"
#include "umpire/event/event.hpp"
#include "umpire/event/event_store_recorder.hpp"
#include "umpire/event/json_file_store.hpp"
#include "umpire/event/sqlite_database.hpp"
#include "umpire/util/error.hpp"

// a data base is written to a scratch directory; nothing has to survive a power failure
extern "C" int fsync(int)
{
  return 0;
}
extern "C" int fdatasync(int)
{
  return 0;
}

namespace {
namespace ev = umpire::event;
using Clock = std::chrono::system_clock;
using Time = std::chrono::time_point<Clock>;

template <typename T>
std::string S(const T& t)
{
  std::ostringstream o;
  o << t;
  return o.str();
}

std::string show(const std::string& s)
{
  std::string r = "\"";
  for (unsigned char ch : s.substr(0, 80)) {
    char b[8];
    if (ch < 32 || ch > 126) {
      snprintf(b, sizeof b, "\\x%02x", ch);
      r += b;
    } else
      r += (char)ch;
  }
  return r + (s.size() > 80 ? "\"... (" + S(s.size()) + " characters)" : "\"");
}

bool utf8(const std::string& s)
{
  for (std::size_t i = 0; i < s.size();) {
    unsigned char a = s[i];
    int n = a < 0x80 ? 0 : a >= 0xc2 && a < 0xe0 ? 1 : a >= 0xe0 && a < 0xf0 ? 2 : a >= 0xf0 && a < 0xf5 ? 3 : -1;
    if (n < 0 || i + n >= s.size())
      return false;
    for (int k = 1; k <= n; ++k)
      if (((unsigned char)s[i + k] & 0xc0) != 0x80)
        return false;
    i += n + 1;
  }
  return true;
}

// An event as it has to be read back.
struct Exp {
  std::string name;
  ev::category cat{ev::category::statistic};
  std::map<std::string, std::string> s;
  std::map<std::string, void*> p;
  std::map<std::string, std::uintmax_t> n;
  std::map<std::string, std::string> tags;
  bool has_time{false};
  Time t;
};

// How to put it in
struct In {
  int kind{0}; // 0 allocate 1 named 2 deallocate 3 event
  std::size_t size{0};
  void *ref{nullptr}, *ptr{nullptr};
  std::string name;
  ev::category cat{ev::category::operation};
  std::map<std::string, std::string> s;
  std::map<std::string, std::uintmax_t> n;
  std::map<std::string, std::string> tags;
  bool has_time{false};
  Time t;

  std::string text() const
  {
    static const char* k[] = {"allocate", "named_allocate", "deallocate", "event"};
    std::string r = k[kind];
    if (kind < 3)
      r += " size=" + S(size) + " ref=" + S(ref) + " ptr=" + S(ptr);
    if (kind & 1)
      r += " name=" + show(name);
    for (auto& x : s)
      r += " " + show(x.first) + "=" + show(x.second);
    for (auto& x : n)
      r += " " + show(x.first) + "=" + S(x.second);
    for (auto& x : tags)
      r += " tag " + show(x.first) + "=" + show(x.second);
    if (has_time)
      r += " at " + S(t.time_since_epoch().count());
    return r;
  }
  Exp exp() const
  {
    Exp e;
    e.has_time = has_time;
    e.t = t;
    if (kind == 3) {
      e.name = name;
      e.cat = cat;
      e.s = s;
      e.n = n;
      e.tags = tags;
      return e;
    }
    static const char* k[] = {"allocate", "named_allocate", "deallocate"};
    e.name = k[kind];
    e.cat = ev::category::operation;
    e.p["allocator_ref"] = ref;
    e.p["pointer"] = ptr;
    if (kind < 2)
      e.n["size"] = size;
    if (kind == 1)
      e.s["allocation_name"] = name;
    e.tags["replay"] = "true";
    return e;
  }
  void put(ev::event_store& st) const
  {
    ev::event_store_recorder rec(&st);
    if (has_time) {
      if (kind == 0) {
        ev::allocate a;
        a.size = size, a.ref = ref, a.ptr = ptr, a.timestamp = t;
        rec.record(a);
      } else if (kind == 1) {
        ev::named_allocate a;
        a.size = size, a.ref = ref, a.ptr = ptr, a.name = name, a.timestamp = t;
        rec.record(a);
      } else if (kind == 2) {
        ev::deallocate a;
        a.ref = ref, a.ptr = ptr, a.timestamp = t;
        rec.record(a);
      } else {
        ev::event a;
        a.name = name, a.cat = cat, a.string_args = s, a.numeric_args = n, a.tags = tags, a.timestamp = t;
        rec.record(a);
      }
      return;
    }
    if (kind == 0) {
      ev::builder<ev::allocate> b;
      b.size(size).ref(ref).ptr(ptr).record(rec);
    } else if (kind == 1) {
      ev::builder<ev::named_allocate> b;
      b.name(name).size(size).ref(ref).ptr(ptr).record(rec);
    } else if (kind == 2) {
      ev::builder<ev::deallocate> b;
      b.ref(ref).ptr(ptr).record(rec);
    } else {
      ev::builder<> b;
      b.name(name).category(cat);
      for (auto& x : s)
        b.arg(x.first, x.second);
      for (auto& x : n)
        b.arg(x.first, x.second);
      for (auto& x : tags)
        b.tag(x.first, x.second);
      b.record(rec);
    }
  }
};

const char* cat_name(ev::category k)
{
  return k == ev::category::operation ? "operation" : k == ev::category::statistic ? "statistic" : "metadata";
}

void same(mc::Ctx& c, const Exp& w, const ev::event& g, const std::string& where, Time t0, Time t1)
{
  auto text = [&](const std::string& what, const std::string& a, const std::string& b) {
    c.check();
    if (utf8(a) && a != b)
      c.fail(where + ": " + what + " is " + show(b) + " and not " + show(a));
  };
  text("its name", w.name, g.name);
  c.check();
  if (w.cat != g.cat)
    c.fail(where + ": its category is " + cat_name(g.cat) + " and not " + cat_name(w.cat));
  auto dict = [&](const std::string& what, const std::map<std::string, std::string>& a, const std::map<std::string, std::string>& b, std::size_t more) {
    bool ok = true;
    for (auto& x : a)
      ok = ok && utf8(x.first);
    if (!ok)
      return;
    if (a.size() + more != b.size())
      c.fail(where + " has " + S(b.size()) + " " + what + " and not " + S(a.size() + more));
    for (auto& x : a) {
      auto i = b.find(x.first);
      if (i == b.end())
        c.fail(where + " lacks the " + what + " " + show(x.first));
      text("the " + what + " " + show(x.first), x.second, i->second);
    }
  };
  dict("text arguments", w.s, g.string_args, w.p.size());
  for (auto& x : w.p) {
    auto i = g.string_args.find(x.first);
    if (i == g.string_args.end())
      c.fail(where + " lacks the pointer " + x.first);
    void* p = i->second == "(nil)" ? nullptr : (void*)strtoull(i->second.c_str(), nullptr, 16);
    c.check();
    if (p != x.second)
      c.fail(where + ": the pointer " + x.first + " is " + i->second + " and not " + S(x.second));
  }
  bool nk = true;
  for (auto& x : w.n)
    nk = nk && utf8(x.first);
  if (nk && w.n != g.numeric_args) {
    for (auto& x : w.n) {
      auto i = g.numeric_args.find(x.first);
      if (i == g.numeric_args.end())
        c.fail(where + " lacks the number " + show(x.first));
      if (i->second != x.second)
        c.fail(where + ": the number " + show(x.first) + " is " + S(i->second) + " and not " + S(x.second));
    }
    c.fail(where + " has numbers that were not put in");
  }
  dict("tags", w.tags, g.tags, 0);
  c.check();
  if (w.has_time ? g.timestamp != w.t : g.timestamp < t0 || g.timestamp > t1)
    c.fail(where + ": its time is " + S(g.timestamp.time_since_epoch().count()) + (w.has_time ? " and not " + S(w.t.time_since_epoch().count()) : std::string(" and not that of its recording")));
}

std::string dir_of()
{
  const char* d = getenv("VERIF_SCRATCH");
  static std::string r;
  static pid_t mine = 0;
  if (mine != getpid()) {
    mine = getpid();
    r = std::string(d ? d : ".") + "/s" + S(getpid());
    mkdir(r.c_str(), 0700);
  }
  return r;
}

std::string fresh_file()
{
  static int k = 0;
  return dir_of() + "/e" + S(k++);
}

struct File {
  std::string name{fresh_file()};
  ~File()
  {
    unlink(name.c_str());
    unlink((name + "-journal").c_str());
    rmdir(dir_of().c_str());
  }
};

ev::event_store* writer(int which, const std::string& f)
{
  return which ? (ev::event_store*)new ev::sqlite_database(f) : new ev::json_file_store(f);
}
ev::event_store* reader(int which, const std::string& f)
{
  return which ? (ev::event_store*)new ev::sqlite_database(f) : new ev::json_file_store(f, true);
}

const char* STORE[] = {"the JSON file", "the SQLite data base"};

void roundtrip(mc::Ctx& c, int which, const std::vector<In>& in)
{
  dir_of();
  File f;
  mkdir(dir_of().c_str(), 0700);
  c.log(std::string("events to ") + STORE[which] + ":");
  ev::event_store* w = writer(which, f.name);
  Time t0 = Clock::now();
  for (auto& i : in) {
    c.log("  " + i.text());
    c.step();
    try {
      i.put(*w);
    } catch (std::exception& x) {
      c.fail("recording (" + i.text() + ") raised an error: " + std::string(x.what()).substr(0, 200));
    }
  }
  Time t1 = Clock::now();
  fflush(nullptr);
  std::vector<ev::event> got;
  try {
    got = reader(which, f.name)->get_events();
  } catch (std::exception& x) {
    c.fail("reading the events raised an error: " + std::string(x.what()).substr(0, 200));
  }
  if (got.size() != in.size())
    c.fail(S(in.size()) + " events were put in and " + S(got.size()) + " came out");
  for (std::size_t i = 0; i < in.size(); ++i)
    same(c, in[i].exp(), got[i], "event " + S(i + 1), t0, t1);
  mc::Hash h;
  h.add(which);
  for (auto& i : in)
    h.add(i.text());
  c.state(h.h);
}

In mk(int kind, std::size_t size = 64, std::string name = "n")
{
  In i;
  i.kind = kind;
  i.size = size;
  i.ref = (void*)0x55aa00010;
  i.ptr = (void*)0x7f0012345678;
  i.name = std::move(name);
  return i;
}

In event(std::string name, ev::category k, std::map<std::string, std::string> s = {}, std::map<std::string, std::uintmax_t> n = {}, std::map<std::string, std::string> t = {})
{
  In i = mk(3, 0, name);
  i.cat = k;
  i.s = s;
  i.n = n;
  i.tags = t;
  return i;
}

std::vector<In> menu()
{
  std::vector<In> m = {mk(0), mk(0, 0), mk(1), mk(1, 1, "a \"b\""), mk(2)};
  m.push_back(event("e", ev::category::operation));
  m.push_back(event("e", ev::category::statistic, {{"k", "v"}}, {{"k", 3}}, {{"k", "t"}}));
  m.push_back(event("it's", ev::category::metadata, {{"a", "x'y"}, {"b", ""}}, {}, {{"replay", "true"}}));
  m.push_back(event("", ev::category::statistic, {}, {{"m", ~std::uintmax_t(0)}, {"z", 0}}));
  In t = mk(0, 5);
  t.has_time = true;
  t.t = Time(Clock::duration(1234567890123456789ll));
  m.push_back(t);
  t.kind = 3, t.cat = ev::category::metadata;
  t.t = Time(Clock::duration(1));
  m.push_back(t);
  return m;
}

struct Cut {
  std::size_t at;
};

std::vector<mc::Config> make(const mc::Options& o)
{
  const bool T = o.tier == "thorough";
  std::vector<mc::Config> v;
  auto add = [&](std::string name, std::function<void(mc::Ctx&)> b, std::string bounds, int split) {
    mc::Config k;
    k.name = name;
    k.body = b;
    k.bounds = bounds;
    k.split = split;
    k.segment = 100; // the stores keep their files open
    v.push_back(k);
  };
  for (int which : {0, 1}) {
    const std::string S0 = which ? "sqlite-" : "json-";
    int d = T || !which ? 4 : 3;
    add(S0 + "kinds", [=](mc::Ctx& c) {
      auto m = menu();
      std::vector<In> in;
      int n = which ? c.choose(d + 1) : 1 + c.choose(d); // without an event there is no JSON file
      for (int i = 0; i < n; ++i)
        in.push_back(m[c.choose((int)m.size())]);
      roundtrip(c, which, in);
    }, "all sequences of up to " + S(d) + " out of 11 events", 2);
    // names over an alphabet, in every place
    const std::vector<std::string> abc = {"a", "\"", "'", "\\", "\n", "\x01", "%", "{", ",", "\xc3\xa9", "\xff", std::string(1, '\0'), "/", " "};
    int len = T || !which ? 3 : 2;
    add(S0 + "names", [=](mc::Ctx& c) {
      int place = c.choose(7);
      std::string s;
      int n = c.choose(len + 1);
      for (int i = 0; i < n; ++i)
        s += abc[c.choose((int)abc.size())];
      In e;
      switch (place) {
        case 0: e = mk(1, 7, s); break;
        case 1: e = event(s, ev::category::operation, {{"x", "y"}}); break;
        case 2: e = event("e", ev::category::operation, {{s, "y"}}); break;
        case 3: e = event("e", ev::category::operation, {{"x", s}}); break;
        case 4: e = event("e", ev::category::operation, {}, {{s, 1}}); break;
        case 5: e = event("e", ev::category::operation, {}, {}, {{s, "t"}}); break;
        default: e = event("e", ev::category::operation, {}, {}, {{"t", s}}); break;
      }
      roundtrip(c, which, {mk(0), e, mk(2)});
    }, "all texts of up to " + S(len) + " out of 14 characters in each of 7 places", 2);
    add(S0 + "lengths", [=](mc::Ctx& c) {
      int place = c.choose(4);
      static const int L[] = {0, 1, 15, 16, 63, 64, 100, 127, 128, 200, 220, 230, 240, 250, 255, 256, 257, 260, 270, 280, 290, 300, 310, 320, 330, 340, 350, 360, 380, 400, 500, 511, 512, 513, 600, 1000, 1023, 1024, 4095, 4096, 5000, 70000};
      std::string s(L[c.choose(sizeof L / sizeof *L)], c.choose(2) ? '"' : 'n');
      In e = place == 0 ? mk(1, 7, s) : place == 1 ? event(s, ev::category::metadata) : place == 2 ? event("e", ev::category::metadata, {{"k", s}, {"l", s}}) : event("e", ev::category::metadata, {}, {}, {{s, s}});
      roundtrip(c, which, {mk(0), e, mk(2)});
    }, "texts of 42 lengths up to 70000 in each of 4 places", 2);
    add(S0 + "numbers", [=](mc::Ctx& c) {
      int place = c.choose(4);
      int bit = c.choose(64), off = c.choose(3);
      std::uintmax_t n = (std::uintmax_t(1) << bit) + off - 1;
      In e = mk(place < 2 ? place : 3);
      if (place < 2)
        e.size = n;
      else if (place == 2)
        e.n = {{"n", n}, {"o", 1}};
      else {
        e = mk(c.choose(4));
        e.has_time = true;
        e.t = Time(Clock::duration((long long)(n >> 1)));
      }
      roundtrip(c, which, {e});
    }, "all powers of two and their neighbours as sizes, numbers and times", 2);
    add(S0 + "pointers", [=](mc::Ctx& c) {
      int kind = c.choose(3), which_p = c.choose(2), bit = c.choose(49);
      In e = mk(kind);
      (which_p ? e.ref : e.ptr) = (void*)((std::uintptr_t(1) << bit) - 1);
      roundtrip(c, which, {e, mk(0)});
    }, "pointers of every length", 2);
    add(S0 + "builder", [=](mc::Ctx& c) {
      File f;
      mkdir(dir_of().c_str(), 0700);
      ev::event_store* w = writer(which, f.name);
      ev::event_store_recorder rec(w);
      Time t0 = Clock::now();
      ev::builder<> b;
      Exp e;
      e.name = "b";
      b.name("b").category(ev::category::operation);
      e.cat = ev::category::operation;
      for (int i = 0; i < 2; ++i) {
        std::string k = i ? "k1" : "k0";
        int pick = c.choose(14);
        c.log("argument " + k + " of type " + S(pick));
        c.step();
        static char text[] = "characters";
        switch (pick) {
          case 0: b.arg(k, 7), e.n[k] = 7; break;
          case 1: b.arg(k, -1), e.n[k] = std::uintmax_t(-1); break;
          case 2: b.arg(k, ~0ull), e.n[k] = ~0ull; break;
          case 3: b.arg(k, true), e.n[k] = 1; break;
          case 4: b.arg(k, (std::size_t)1 << 40), e.n[k] = (std::size_t)1 << 40; break;
          case 5: b.arg(k, (short)3), e.n[k] = 3; break;
          case 6: b.arg(k, 2.0), e.n[k] = 2; break;
          case 7: b.arg(k, (void*)0x1234abcd), e.p[k] = (void*)0x1234abcd; break;
          case 8: b.arg(k, "literal"), e.s[k] = "literal"; break;
          case 9: b.arg(k, text), e.s[k] = "characters"; break;
          case 10: b.arg(k, std::string("string")), e.s[k] = "string"; break;
          case 11: b.arg(k.c_str(), std::string("s")), e.s[k] = "s"; break;
          case 12: b.arg(k.c_str(), (void*)0x10), e.p[k] = (void*)0x10; break;
          default: b.arg(k.c_str(), 5u), e.n[k] = 5; break;
        }
      }
      if (c.choose(2))
        b.tag("t", "u"), e.tags["t"] = "u";
      b.record(rec);
      Time t1 = Clock::now();
      fflush(nullptr);
      auto got = reader(which, f.name)->get_events();
      if (got.size() != 1)
        c.fail("one event was put in and " + S(got.size()) + " came out");
      same(c, e, got[0], "the event", t0, t1);
      c.state(mc::Hash().add(which).add(c.taken[0]).add(c.taken[1]).h);
    }, "all pairs of 14 types of arguments, with and without a tag", 2);
  }
  // A program that dies may leave part of a line
  add("json-cut", [=](mc::Ctx& c) {
    auto m = menu();
    static const int pick[][3] = {{0, 3, 4}, {6, 2, 7}, {8, 1, 9}};
    int set = c.choose(3);
    File f;
    mkdir(dir_of().c_str(), 0700);
    std::vector<In> in;
    for (int i : pick[set]) {
      In e = m[i];
      e.has_time = true;
      e.t = Time(Clock::duration(1700000000000000000ll + i));
      in.push_back(e);
    }
    ev::event_store* w = writer(0, f.name);
    for (auto& i : in)
      i.put(*w);
    fflush(nullptr);
    std::string all;
    {
      FILE* r = fopen(f.name.c_str(), "r");
      char b[4096];
      std::size_t n;
      while (r && (n = fread(b, 1, sizeof b, r)) > 0)
        all.append(b, n);
      if (r)
        fclose(r);
    }
    int at = c.choose((int)all.size() + 1);
    c.log("the file of " + S(all.size()) + " bytes ends after " + S(at));
    c.step();
    FILE* r = fopen(f.name.c_str(), "w");
    fwrite(all.data(), 1, at, r);
    fclose(r);
    std::string cut = all.substr(0, at);
    std::size_t whole = std::count(cut.begin(), cut.end(), '\n');
    const bool clean = cut.empty() || cut.back() == '\n' || all[at] == '\n';
    if (!cut.empty() && cut.back() != '\n' && clean)
      ++whole;
    bool error = false;
    std::string said;
    std::vector<ev::event> got;
    try {
      got = reader(0, f.name)->get_events();
    } catch (umpire::runtime_error& x) {
      error = true;
      said = x.what();
    }
    c.check();
    if (clean && error)
      c.fail("a file of " + S(whole) + " whole lines is not read: " + said.substr(0, 200));
    if (!clean && !error)
      c.fail("part of a line is taken for an event, or left out without an error");
    if (error && said.find("#" + S(whole + 1)) == std::string::npos)
      c.fail("the error does not name line " + S(whole + 1) + ": " + said.substr(0, 200));
    if (clean) {
      if (got.size() != whole)
        c.fail(S(whole) + " whole lines give " + S(got.size()) + " events");
      for (std::size_t i = 0; i < whole; ++i)
        same(c, in[i].exp(), got[i], "event " + S(i + 1), {}, {});
    }
    c.state(mc::Hash().add(set).add(at).h);
  }, "files of three events cut after every byte", 1);
  add("json-missing", [=](mc::Ctx& c) {
    int rd = c.choose(2);
    File f;
    std::string name = dir_of() + "/no/such/file";
    bool error = false;
    try {
      if (rd)
        reader(0, name)->get_events();
      else
        mk(c.choose(4)).put(*writer(0, name));
    } catch (umpire::runtime_error&) {
      error = true;
    }
    c.step();
    c.check();
    if (!error)
      c.fail("a file that cannot be opened is no error");
  }, "reading and writing a file that cannot be opened", 1);
  return v;
}
} // namespace

int main(int argc, char** argv)
{
  umpire::log().rdbuf(nullptr);
  umpire::error().rdbuf(nullptr);
  return mc::mc_main(argc, argv, make);
}
