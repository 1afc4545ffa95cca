// P24: output streams, log levels and log file names.
#include "mc.hpp"

#include <iostream>
#include <memory>
#include <ostream>
#include <streambuf>

#include "umpire/util/Logger.hpp"
#include "umpire/util/Macros.hpp"
#include "umpire/util/OutputBuffer.hpp"
#include "umpire/util/io.hpp"

// declared in io.hpp; looked up weakly so that a missing definition is a finding and not a link error
namespace umpire {
namespace util {
void finalize_io(const bool) __attribute__((weak));
}
} // namespace umpire

#define REQ(cond, msg) c.require_f((cond), [&] { return std::string(msg); })

namespace {

using umpire::util::Logger;
using umpire::util::OutputBuffer;
namespace lvl = umpire::util::message;

template <typename T>
std::string S(const T& x)
{
  std::ostringstream s;
  s << x;
  return s.str();
}

std::string show(const std::string& s)
{
  std::string r;
  char b[8];
  for (unsigned char c : s) {
    if (c >= 32 && c < 127 && c != '\\')
      r += (char)c;
    else {
      snprintf(b, sizeof b, "\\x%02x", c);
      r += b;
    }
  }
  return "\"" + r + "\"";
}

// A sink that keeps what it is given, accepts at most `room` characters and
// optionally fails to flush.
struct Sink : std::streambuf {
  std::string got;
  long room{-1};
  bool sync_fails{false};
  int syncs{0};
  bool failed{false};
  int_type overflow(int_type c) override
  {
    if (traits_type::eq_int_type(c, traits_type::eof()))
      return traits_type::not_eof(c);
    if (room == 0) {
      failed = true;
      return traits_type::eof();
    }
    if (room > 0)
      --room;
    got += traits_type::to_char_type(c);
    return c;
  }
  std::streamsize xsputn(const char* s, std::streamsize n) override
  {
    std::streamsize i = 0;
    for (; i < n; ++i)
      if (traits_type::eq_int_type(overflow(traits_type::to_int_type(s[i])), traits_type::eof()))
        break;
    return i;
  }
  int sync() override
  {
    ++syncs;
    return sync_fails ? -1 : 0;
  }
};

const std::vector<std::string>& texts()
{
  static const std::vector<std::string> t = {"a", "xy", std::string("\xff", 1), std::string("p\0\xffq\n", 5), ""};
  return t;
}

// ------------------------------------------------ the tee, on sinks that work

void buffer(mc::Ctx& c, int depth)
{
  alignas(OutputBuffer) unsigned char mem[sizeof(OutputBuffer)];
  memset(mem, 0xa5, sizeof mem);
  OutputBuffer* b = new (mem) OutputBuffer;
  struct Del {
    OutputBuffer* b;
    ~Del() { b->~OutputBuffer(); }
  };
  Sink s[3];
  std::ostream st[3]{std::ostream(&s[0]), std::ostream(&s[1]), std::ostream(&s[2])};
  Del del{b}; // before the sinks go away
  std::string want[3];
  int con = -1, file = -1;
  std::ostream out(b);
  // either both sinks are chosen first, or nothing is configured at all
  const int init = c.choose(2);
  if (init) {
    b->setConsoleStream(nullptr);
    b->setFileStream(nullptr);
  }
  for (int d = 0; d < depth; ++d) {
    const int nt = (int)texts().size();
    int k = c.choose(3 + 3 + 2 * nt + 2);
    c.step();
    int before[3] = {s[0].syncs, s[1].syncs, s[2].syncs};
    if (k < 6) {
      const bool console = k < 3;
      int t = k % 3; // 0: none, 1: its own sink, 2: another one
      int i = t == 0 ? -1 : t == 1 ? (console ? 0 : 1) : 2;
      c.log(std::string(console ? "console" : "file") + " sink := " + (i < 0 ? "none" : S(i)));
      if (console) {
        b->setConsoleStream(i < 0 ? nullptr : &st[i]);
        con = i;
      } else {
        b->setFileStream(i < 0 ? nullptr : &st[i]);
        file = i;
      }
    } else if (k < 6 + 2 * nt) {
      const std::string& t = texts()[(k - 6) / 2];
      c.log("write " + show(t));
      if (k % 2)
        for (char ch : t)
          out.put(ch);
      else
        out.write(t.data(), (std::streamsize)t.size());
      for (char ch : t)
        for (int i : {con, file})
          if (i >= 0)
            want[i] += ch;
    } else if (k == 6 + 2 * nt) {
      c.log("flush");
      out.flush();
      for (int i : {con, file})
        if (i >= 0)
          REQ(s[i].syncs > before[i], "flushing does not flush sink " + S(i));
    } else {
      c.log("write \"e\\n\" with endl");
      out << 'e' << std::endl;
      for (char ch : std::string("e\n"))
        for (int i : {con, file})
          if (i >= 0)
            want[i] += ch;
      for (int i : {con, file})
        if (i >= 0)
          REQ(s[i].syncs > before[i], "flushing does not flush sink " + S(i));
    }
    REQ(out.good(), "the stream is in a failed state although every sink accepts everything");
    out.flush();
    REQ(out.good(), "flushing fails although every sink accepts it");
    for (int i = 0; i < 3; ++i) {
      const bool twice = i == 2 && con == 2 && file == 2;
      if (twice) {
        // one sink in both roles: each character twice, in order
        std::string g = s[i].got;
        std::size_t n[256] = {0}, m[256] = {0};
        for (unsigned char x : g)
          ++n[x];
        for (unsigned char x : want[i])
          ++m[x];
        REQ(!memcmp(n, m, sizeof n), "a sink in both roles holds " + show(g));
        want[i] = g; // the interleaving of the two copies is not specified
        continue;
      }
      REQ(s[i].got == want[i], "sink " + S(i) + " holds " + show(s[i].got) + ", should be " + show(want[i]));
    }
    mc::Hash h;
    h.add(con).add(file).add(want[0]).add(want[1]).add(want[2]);
    c.state(h.h);
  }
}

// ------------------------------------------------ the tee, on sinks that fail

void faults(mc::Ctx& c, int depth)
{
  OutputBuffer b{};
  b.setConsoleStream(nullptr);
  b.setFileStream(nullptr);
  Sink s[2];
  std::ostream st[2]{std::ostream(&s[0]), std::ostream(&s[1])};
  struct Del {
    OutputBuffer& b;
    ~Del()
    {
      b.setConsoleStream(nullptr);
      b.setFileStream(nullptr);
    }
  } del{b};
  std::string all[2];
  std::ostream out(&b);
  const int both = c.choose(3); // both, console, file
  bool on[2] = {both != 2, both != 1};
  for (int i = 0; i < 2; ++i)
    if (on[i]) {
      int r = c.choose(4);
      s[i].room = r == 3 ? -1 : r;
      s[i].sync_fails = c.choose(2);
    }
  if (on[0])
    b.setConsoleStream(&st[0]);
  if (on[1])
    b.setFileStream(&st[1]);
  for (int d = 0; d < depth; ++d) {
    int k = c.choose(4);
    c.step();
    std::string old[2] = {s[0].got, s[1].got};
    int before[2] = {s[0].syncs, s[1].syncs};
    long room[2] = {s[0].room, s[1].room};
    if (k < 3) {
      const std::string t = k == 0 ? "a" : k == 1 ? "bcd" : std::string("\xff", 1);
      c.log("write " + show(t));
      // how far the sinks can take it
      std::size_t least = t.size();
      for (int i = 0; i < 2; ++i)
        if (on[i] && room[i] >= 0 && (std::size_t)room[i] < least)
          least = (std::size_t)room[i];
      bool fails = least < t.size();
      if (t.size() == 1)
        out.put(t[0]);
      else
        out.write(t.data(), (std::streamsize)t.size());
      REQ(out.good() == !fails, fails ? "a sink refused a character and the stream does not report it" : "the stream reports a failure, but no sink failed");
      for (int i = 0; i < 2; ++i)
        if (on[i]) {
          std::string got = s[i].got.substr(old[i].size());
          REQ(got == t.substr(0, got.size()), "sink " + S(i) + " got " + show(got) + " of " + show(t));
          std::size_t can = room[i] < 0 ? t.size() : std::min((std::size_t)room[i], t.size());
          // up to and including the character the other sink refused
          REQ(got.size() >= std::min(can, least + 1), "sink " + S(i) + " got only " + show(got) + " of " + show(t));
        }
      out.clear();
    } else {
      c.log("flush");
      out.flush();
      bool bad = false;
      for (int i = 0; i < 2; ++i)
        if (on[i]) {
          REQ(s[i].syncs > before[i], "flushing does not flush sink " + S(i));
          bad = bad || s[i].sync_fails;
        }
      REQ(out.good() == !bad, bad ? "a sink failed to flush and it is not reported" : "a flush failure is reported, but no sink failed");
      out.clear();
    }
    mc::Hash h;
    h.add(both).add(s[0].got).add(s[1].got).add(s[0].room).add(s[1].room).add(s[0].sync_fails).add(s[1].sync_fails);
    c.state(h.h);
  }
}

// ------------------------------------------------ every character

void chars(mc::Ctx& c)
{
  const int ch = c.choose(256), combo = c.choose(4), how = c.choose(3);
  c.step();
  OutputBuffer b{};
  Sink s[2];
  std::ostream st[2]{std::ostream(&s[0]), std::ostream(&s[1])};
  b.setConsoleStream(combo & 1 ? &st[0] : nullptr);
  b.setFileStream(combo & 2 ? &st[1] : nullptr);
  std::ostream out(&b);
  std::string t{(char)ch};
  if (how == 0)
    out.put((char)ch);
  else if (how == 1)
    out << t;
  else {
    t = "ab" + t + "cd";
    out << t;
  }
  out << "z";
  REQ(out.good(), "writing character " + S(ch) + " fails");
  for (int i = 0; i < 2; ++i)
    REQ(s[i].got == (combo & (1 << i) ? t + "z" : ""), "sink holds " + show(s[i].got) + ", should be " + show(t + "z"));
  out.flush();
  b.setConsoleStream(nullptr);
  b.setFileStream(nullptr);
}

// ------------------------------------------------ child processes

struct Fork {
  int fd{-1};
  void say(const std::string& s) { (void)!write(fd, s.data(), s.size()); }
};

// runs f in a child; returns what it said, or raises if it died
template <typename F>
std::string in_child(mc::Ctx& c, F f, int* code = nullptr)
{
  int p[2];
  if (pipe(p))
    abort();
  fflush(nullptr);
  pid_t pid = fork();
  if (pid < 0)
    abort();
  if (pid == 0) {
    close(p[0]);
    signal(SIGSEGV, SIG_DFL);
    signal(SIGABRT, SIG_DFL);
    alarm(20);
    Fork k;
    k.fd = p[1];
    int rc = 0;
    try {
      f(k);
    } catch (std::exception& e) {
      k.say(std::string("exception: ") + e.what());
      rc = 9;
    }
    exit(rc);
  }
  close(p[1]);
  std::string r;
  char b[4096];
  for (;;) {
    ssize_t n = read(p[0], b, sizeof b);
    if (n <= 0)
      break;
    r.append(b, n);
  }
  close(p[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (WIFSIGNALED(st))
    c.fail("a process that only logs dies of signal " + S(WTERMSIG(st)));
  if (code)
    *code = WEXITSTATUS(st);
  else
    REQ(WEXITSTATUS(st) == 0, "a process that only logs fails: " + r);
  return r;
}

const char* LEVELS[] = {"ERROR", "WARNING", "INFO", "DEBUG"};

struct Spelling {
  const char* set{nullptr};
  std::string text;
  int level;
};

std::vector<Spelling> spellings()
{
  std::vector<Spelling> v;
  auto add = [&](const std::string& t, int l) {
    Spelling s;
    s.set = "";
    s.text = t;
    s.level = l;
    v.push_back(s);
  };
  {
    Spelling s;
    s.level = 2;
    v.push_back(s); // not set
  }
  for (int l = 0; l < 4; ++l) {
    std::string n = LEVELS[l];
    for (unsigned m = 0; m < (1u << n.size()); ++m) {
      std::string t = n;
      for (std::size_t i = 0; i < t.size(); ++i)
        if (m & (1u << i))
          t[i] = (char)(t[i] - 'A' + 'a');
      add(t, l);
    }
    // near misses
    add(n.substr(0, n.size() - 1), 2);
    add(n + "S", 2);
    add(" " + n, 2);
    add(n + " ", 2);
    add(n.substr(1), 2);
    std::string t = n;
    t[1] = '_';
    add(t, 2);
    t = n;
    t[0] ^= 0x01;
    add(t, 2);
    t = n;
    t[n.size() - 1] = (char)(t[n.size() - 1] | 0x80);
    add(t, 2);
  }
  for (const char* t : {"", "0", "1", "3", "4", "-1", "on", "off", "trace", "none", "errorwarning"})
    add(t, 2);
  return v;
}

void spelling(mc::Ctx& c)
{
  static const std::vector<Spelling> all = spellings();
  const Spelling& s = all[c.choose((int)all.size())];
  c.step();
  c.log(std::string("UMPIRE_LOG_LEVEL ") + (s.set ? show(s.text) : "not set"));
  std::string got = in_child(c, [&](Fork& k) {
    if (s.set)
      setenv("UMPIRE_LOG_LEVEL", s.text.c_str(), 1);
    else
      unsetenv("UMPIRE_LOG_LEVEL");
    Sink out;
    umpire::log().rdbuf(&out);
    for (int l = 0; l < 4; ++l)
      Logger::getActiveLogger()->logMessage((lvl::Level)l, "m" + S(l), "file", 7 + l);
    UMPIRE_LOG(Error, "E");
    UMPIRE_LOG(Warning, "W");
    UMPIRE_LOG(Info, "I");
    UMPIRE_LOG(Debug, "D");
    k.say(out.got);
    _exit(0);
  });
  std::string want;
  for (int l = 0; l <= s.level; ++l)
    want += std::string("[") + LEVELS[l] + "][file:" + S(7 + l) + "]:m" + S(l) + "\n";
  REQ(got.compare(0, want.size(), want) == 0, "with level " + S(s.level) + " the log holds " + show(got) + ", should start with " + show(want));
  std::string rest = got.substr(want.size());
  for (int l = 0; l < 4; ++l) {
    std::string pre = std::string("[") + LEVELS[l] + "][";
    std::size_t eol = rest.find('\n');
    bool there = rest.compare(0, pre.size(), pre) == 0 && eol != std::string::npos;
    REQ(there == (l <= s.level), std::string("UMPIRE_LOG(") + LEVELS[l] + ") is" + (there ? "" : " not") + " written at level " + S(s.level));
    if (there) {
      REQ(eol > 0 && rest[eol - 1] == LEVELS[l][0], "UMPIRE_LOG writes " + show(rest.substr(0, eol)));
      rest.erase(0, eol + 1);
    }
  }
  REQ(rest.empty(), "more is logged than was asked for: " + show(rest));
  c.state(mc::Hash().add(s.text).add(s.level).h);
}

void set_level(mc::Ctx& c, int depth)
{
  Sink out;
  auto* old = umpire::log().rdbuf(&out);
  struct Back {
    std::streambuf* b;
    ~Back()
    {
      umpire::log().rdbuf(b);
      Logger::getActiveLogger()->setLoggingMsgLevel(lvl::Info);
    }
  } back{old};
  auto* lg = Logger::getActiveLogger();
  lg->setLoggingMsgLevel(lvl::Info);
  int level = 2;
  std::string want;
  for (int d = 0; d < depth; ++d) {
    int k = c.choose(4 + 4 + 4);
    c.step();
    if (k < 4) {
      c.log("set level " + S(k));
      lg->setLoggingMsgLevel((lvl::Level)k);
      level = k;
    } else if (k < 8) {
      int l = k - 4;
      c.log("log at level " + S(l));
      lg->logMessage((lvl::Level)l, "text " + S(d) + "\xff%s", "some/file.cpp", d * 100000);
      if (l <= level)
        want += std::string("[") + LEVELS[l] + "][some/file.cpp:" + S(d * 100000) + "]:text " + S(d) + "\xff%s\n";
    } else {
      int l = k - 8;
      int evaluated = 0;
      auto f = [&] { ++evaluated; return "x"; };
      switch (l) {
        case 0: UMPIRE_LOG(Error, f()); break;
        case 1: UMPIRE_LOG(Warning, f()); break;
        case 2: UMPIRE_LOG(Info, f()); break;
        default: UMPIRE_LOG(Debug, f()); break;
      }
      REQ(evaluated == (l <= level ? 1 : 0), "a log statement evaluates its message " + S(evaluated) + " times at level " + S(level));
      std::string more = out.got.substr(std::min(want.size(), out.got.size()));
      if (l <= level) {
        std::string pre = std::string("[") + LEVELS[l] + "][" + __FILE__ + ":";
        REQ(more.compare(0, pre.size(), pre) == 0 && more.find('\n') == more.size() - 1 && more.find("x\n") != std::string::npos,
                  "UMPIRE_LOG writes " + show(more));
      }
      if (l <= level)
        want = out.got;
    }
    REQ(out.got == want, "the log holds " + show(out.got) + ", should be " + show(want));
    for (int l = -1; l <= 4; ++l)
      REQ(lg->logLevelEnabled((lvl::Level)l) == (l >= 0 && l <= level && l < 4), "level " + S(l) + " is reported wrongly at level " + S(level));
    c.state(mc::Hash().add(level).add(want).h);
  }
}

// ------------------------------------------------ names of files

std::string scratch()
{
  const char* s = getenv("VERIF_SCRATCH");
  std::string base = s ? s : "/tmp";
  return base + "/io." + S(getpid());
}

void put_file(const std::string& p, const std::string& text)
{
  FILE* f = fopen(p.c_str(), "w");
  if (!f)
    abort();
  fwrite(text.data(), 1, text.size(), f);
  fclose(f);
}

std::string get_file(const std::string& p)
{
  FILE* f = fopen(p.c_str(), "r");
  if (!f)
    return "(none)";
  std::string r;
  char b[4096];
  std::size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0)
    r.append(b, n);
  fclose(f);
  return r;
}

struct Dir {
  std::string path;
  std::vector<std::string> made;
  Dir() : path(scratch())
  {
    mkdir(path.c_str(), 0755);
    chmod(path.c_str(), 0755);
  }
  std::string file(const std::string& n) const { return path + "/" + n; }
  void add(const std::string& n, const std::string& text)
  {
    put_file(file(n), text);
    made.push_back(n);
  }
  ~Dir()
  {
    for (auto& n : made)
      if (unlink(file(n).c_str()))
        rmdir(file(n).c_str());
    rmdir(path.c_str());
  }
};

// all sets of existing files
void unique_names(mc::Ctx& c, int n)
{
  const int mode = c.choose(3); // contents: text, empty, directory
  const int decoy = c.choose(4);
  const std::vector<std::string> bases = {"umpire", "a.b", "x.1"};
  const std::string base = bases[c.choose(3)];
  Dir d;
  std::vector<bool> there(n);
  for (int i = 0; i < n; ++i) {
    there[i] = c.choose(2);
    if (there[i]) {
      std::string f = base + ".17." + S(i) + ".log";
      if (mode == 2) {
        mkdir(d.file(f).c_str(), 0755);
        d.made.push_back(f);
      } else
        d.add(f, mode ? "" : "old");
    }
  }
  // files of other series do not count
  if (decoy & 1)
    d.add(base + ".17.0.error", "other");
  if (decoy & 2)
    d.add(base + ".1.0.log", "other");
  c.step();
  int want = 0;
  while (want < n && there[want])
    ++want;
  for (const char* dir : {"", "/"}) {
    std::string got = umpire::util::make_unique_filename(d.path + dir, base, 17, "log");
    std::string tail = "/" + base + ".17." + S(want) + ".log";
    REQ(got.size() > tail.size() && got.compare(got.size() - tail.size(), tail.size(), tail) == 0, "the new name is " + got + ", should end in " + tail);
    REQ(access(got.c_str(), F_OK) != 0, "the new name " + got + " exists already");
  }
  for (int i = 0; i < n; ++i) {
    std::string f = d.file(base + ".17." + S(i) + ".log");
    REQ(umpire::util::file_exists(f) == there[i], "file_exists is wrong for an " + std::string(there[i] ? "existing" : "absent") + " file");
    if (there[i] && mode < 2)
      REQ(get_file(f) == (mode ? "" : "old"), "looking for a new name changes an existing file");
  }
  REQ(umpire::util::directory_exists(d.path), "an existing directory is not recognised");
  REQ(!umpire::util::directory_exists(d.path + "/none"), "a missing directory is reported as existing");
  c.state(mc::Hash().add(mode).add(decoy).add(base).add(want).h);
}

// existing files the user may not read
void unreadable(mc::Ctx& c, int n)
{
  static const int modes[] = {0644, 0200, 0000};
  Dir d;
  std::vector<int> there(n);
  for (int i = 0; i < n; ++i) {
    there[i] = c.choose(4); // absent or one of the modes
    if (there[i]) {
      std::string f = "u.17." + S(i) + ".log";
      d.add(f, "old");
      if (chown(d.file(f).c_str(), 65534, 65534) || chmod(d.file(f).c_str(), modes[there[i] - 1]))
        c.prune("cannot set permissions");
    }
  }
  if (chown(d.path.c_str(), 65534, 65534))
    c.prune("cannot set permissions");
  c.step();
  int code = 0;
  std::string got = in_child(c, [&](Fork& k) {
    if (setresgid(65534, 65534, 65534) || setresuid(65534, 65534, 65534))
      _exit(3); // not possible here
    k.say(umpire::util::make_unique_filename(d.path, "u", 17, "log"));
    _exit(0);
  }, &code);
  if (code == 3)
    c.prune("cannot become an unprivileged user");
  int want = 0;
  while (want < n && there[want])
    ++want;
  REQ(got == d.path + "/u.17." + S(want) + ".log", "the new name is " + got + ", number " + S(want) + " is the lowest that does not exist");
}

// whole programs: initialise, write, flush, finalise
void programs(mc::Ctx& c, int depth)
{
  const int log_on = c.choose(2);
  const int dir_set = c.choose(3);  // not set (working directory), set, set with a slash at the end
  const int base_set = c.choose(2);
  const int existing = c.choose(4); // which of the first two log files exist
  const int ending = c.choose(2);   // flush and leave at once, or leave normally
  std::vector<int> ops;
  for (int i = 0; i < depth; ++i)
    ops.push_back(c.choose(6));
  Dir d;
  const std::string base = base_set ? "other name" : "umpire";
  std::vector<std::string> text;
  // the process id of the child is part of the names, so it creates the existing files itself
  std::string log_want, err_want;
  bool live = true;
  for (int i = 0; i < depth; ++i) {
    std::string t = "line " + S(i) + "\xff\n";
    if (ops[i] == 0 && live && log_on)
      log_want += t;
    if (ops[i] == 1 && live)
      err_want += t;
    if (ops[i] == 3)
      live = false;
    if (ops[i] == 4)
      live = true;
    if (ops[i] == 5 && live && log_on)
      log_want += "[INFO][f:3]:" + t + "\n";
    c.step();
  }
  int code = 0;
  std::string pid;
  std::string got = in_child(c, [&](Fork& k) {
    const std::string me = S(getpid());
    if (chdir(d.path.c_str()))
      abort();
    if (dir_set)
      setenv("UMPIRE_OUTPUT_DIR", (d.path + (dir_set == 2 ? "/" : "")).c_str(), 1);
    else
      unsetenv("UMPIRE_OUTPUT_DIR");
    if (base_set)
      setenv("UMPIRE_OUTPUT_BASENAME", base.c_str(), 1);
    else
      unsetenv("UMPIRE_OUTPUT_BASENAME");
    unsetenv("UMPIRE_LOG_LEVEL");
    for (int i = 0; i < 2; ++i)
      if (existing & (1 << i))
        put_file(d.file(base + "." + me + "." + S(i) + ".log"), "old " + S(i));
    static Sink err, con;
    std::cerr.rdbuf(&err);
    std::cout.rdbuf(&con);
    umpire::util::initialize_io(log_on);
    for (int i = 0; i < depth; ++i) {
      std::string t = "line " + S(i) + "\xff\n";
      switch (ops[i]) {
        case 0: umpire::log() << t; break;
        case 1: umpire::error() << t; break;
        case 2: umpire::util::flush_files(); break;
        case 3:
          if (&umpire::util::finalize_io == nullptr) {
            k.say("NOFINALIZE");
            _exit(0);
          }
          umpire::util::finalize_io(log_on);
          break;
        case 4: umpire::util::initialize_io(log_on); break;
        case 5: Logger::getActiveLogger()->logMessage(lvl::Info, t, "f", 3); break;
      }
      umpire::log().clear();
      umpire::error().clear();
    }
    if (ending == 0)
      umpire::util::flush_files();
    k.say(me + "\n" + err.got + "\f" + con.got);
    if (ending == 0)
      _exit(0);
  }, &code);
  REQ(code == 0, "a program that only logs fails: " + got);
  REQ(got != "NOFINALIZE", "finalize_io(bool), as declared, does not exist");
  std::size_t nl = got.find('\n');
  std::string me = got.substr(0, nl);
  got.erase(0, nl + 1);
  int first = 0;
  while (first < 2 && (existing & (1 << first)))
    ++first;
  std::string all;
  for (int i = 0; i < 6; ++i) {
    std::string f = base + "." + me + "." + S(i) + ".log";
    std::string t = get_file(d.file(f));
    if (i < 2 && (existing & (1 << i))) {
      REQ(t == "old " + S(i), "an existing log file was overwritten");
      d.made.push_back(f);
      continue;
    }
    if (t == "(none)") {
      REQ(!(i == first && log_on), "the log file is not " + f);
      continue;
    }
    d.made.push_back(f);
    REQ(log_on, "a log file is created although logging is off");
    all += t;
  }
  for (const char* e : {".error", ".stats"}) {
    std::string f = base + "." + me + ".0" + e;
    if (get_file(d.file(f)) != "(none)")
      d.made.push_back(f);
  }
  // after leaving without finalize_io, what was still buffered may be missing only if nothing flushed it
  REQ(all == log_want, "the log file holds " + show(all) + ", should be " + show(log_want));
  REQ(got.substr(0, got.find('\f')) == err_want, "the error stream got " + show(got.substr(0, got.find('\f'))) + ", should be " + show(err_want));
  REQ(got.substr(got.find('\f') + 1).empty(), "something is written to the console: " + show(got.substr(got.find('\f') + 1)));
  c.state(mc::Hash().add(log_on).add(existing).add(log_want).add(err_want).h);
}

// a series that grows one file at a time, for several process numbers
void series(mc::Ctx& c, int n)
{
  const std::vector<int> pids = {0, 7, 2147483647, -1};
  const int pid = pids[c.choose((int)pids.size())];
  const char* ext = c.choose(2) ? "log" : "error";
  Dir d;
  for (int i = 0; i < n; ++i) {
    std::string want = d.path + "/umpire." + S(pid) + "." + S(i) + "." + ext;
    std::string got = umpire::util::make_unique_filename(d.path, "umpire", pid, ext);
    REQ(got == want, "with " + S(i) + " files of the series the new name is " + got + ", should be " + want);
    d.add("umpire." + S(pid) + "." + S(i) + "." + ext, "");
    c.step();
  }
  c.state(mc::Hash().add(pid).add(std::string(ext)).h);
}

// long texts, in one piece and in two, through the buffer and through a message
void long_text(mc::Ctx& c)
{
  const std::vector<std::size_t> sizes = {127, 128, 255, 256, 257, 511, 512, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 65535, 65536, 65537, 1048576};
  const std::size_t n = sizes[c.choose((int)sizes.size())];
  const int sinks = 1 + c.choose(3);
  const int form = c.choose(4);
  std::string t(n, 'x');
  for (std::size_t i = 0; i < n; ++i)
    t[i] = (char)('a' + (i * 7 + i / 251) % 26);
  c.step();
  std::ostringstream con, file;
  umpire::util::OutputBuffer b;
  if (sinks & 1)
    b.setConsoleStream(&con);
  if (sinks & 2)
    b.setFileStream(&file);
  std::string want = t;
  if (form < 3) {
    std::ostream o(&b);
    if (form == 0)
      o << t << std::flush;
    else if (form == 1) {
      o.write(t.data(), n / 3);
      o << t.substr(n / 3);
      o.flush();
    } else
      for (char ch : t)
        o.put(ch);
    REQ(o.good(), "writing a long text fails");
  } else {
    auto* old = umpire::log().rdbuf(&b);
    umpire::util::Logger::getActiveLogger()->logMessage(lvl::Error, t, "file.cpp", 12);
    umpire::log().rdbuf(old);
    want = "[ERROR][file.cpp:12]:" + t + "\n";
  }
  REQ(!(sinks & 1) || con.str() == want, "the console got " + S(con.str().size()) + " characters of " + S(want.size()) + ", or others");
  REQ(!(sinks & 2) || file.str() == want, "the file got " + S(file.str().size()) + " characters of " + S(want.size()) + ", or others");
  REQ((sinks & 1) || con.str().empty(), "a sink that is not configured gets output");
  REQ((sinks & 2) || file.str().empty(), "a sink that is not configured gets output");
  c.state(mc::Hash().add(n).add(sinks).add(form).h);
}

std::vector<mc::Config> make(const mc::Options& o)
{
  const bool th = o.tier == "thorough";
  std::vector<mc::Config> v;
  auto add = [&](const std::string& n, std::function<void(mc::Ctx&)> f, const std::string& b, int split = 2) {
    mc::Config c;
    c.name = n;
    c.body = f;
    c.bounds = b;
    c.split = split;
    c.segment = 4000;
    v.push_back(c);
  };
  int d1 = th ? 6 : 5;
  add("buffer/d" + S(d1), [=](mc::Ctx& c) { buffer(c, d1); }, "all sequences of " + S(d1) + " sink changes, writes and flushes over 3 working sinks, starting unconfigured", 3);
  int d2 = th ? 7 : 5;
  add("faults/d" + S(d2), [=](mc::Ctx& c) { faults(c, d2); }, "all sequences of " + S(d2) + " writes and flushes for all capacities 0, 1, 2, unlimited and flush failures of both sinks", 5);
  add("characters", chars, "all 256 characters, sink combinations and ways to write", 1);
  add("level-spellings", spelling, "all upper and lower case spellings of the 4 levels, 8 near misses each, and others");
  int d3 = th ? 5 : 4;
  add("levels/d" + S(d3), [=](mc::Ctx& c) { set_level(c, d3); }, "all sequences of " + S(d3) + " level changes and messages");
  int n = th ? 8 : 6;
  add("names/" + S(n), [=](mc::Ctx& c) { unique_names(c, n); }, "all sets of " + S(n) + " existing files, 3 kinds, 3 base names, files of other series");
  add("names-unreadable", [=](mc::Ctx& c) { unreadable(c, th ? 5 : 4); }, "all sets of " + S(th ? 5 : 4) + " existing files that are readable, unreadable or inaccessible, as an unprivileged user", 2);
  int ns = th ? 4000 : 1100;
  add("series", [=](mc::Ctx& c) { series(c, ns); }, "a series growing from 0 to " + S(ns) + " files, 4 process numbers, 2 kinds of file", 2);
  add("long-text", long_text, "texts of 22 lengths up to 1 MB, 3 sink combinations, 4 ways to write", 3);
  int d4 = th ? 5 : 3;
  add("programs/d" + S(d4), [=](mc::Ctx& c) { programs(c, d4); }, "all programs of " + S(d4) + " writes, flushes, finalisations and initialisations, with and without logging, 3 x 2 output settings, 4 sets of existing files", 5);
  return v;
}
} // namespace

int main(int argc, char** argv)
{
  return mc::mc_main(argc, argv, make);
}
