ID="b39-sqlite-size-32bit"; PROPERTY="P32"
NEEDS="The SQLite event store and an allocation of 2 GiB or more."
BREAKS="The size of an allocation is written to the data base as a 32 bit number, so that the event read back has another size."
EDITS=[("src/umpire/event/sqlite_database.cpp",'''          R"({"category":"operation","name":"allocate")"
          R"(,"numeric_args":{"size":%ld})"''','''          R"({"category":"operation","name":"allocate")"
          R"(,"numeric_args":{"size":%d})"''')]
FLAGS="-DUMPIRE_ENABLE_SQLITE_EXPERIMENTAL -Wl,--no-as-needed -lsqlite3"
DEMO=r'''
#include "/repo/src/umpire/event/sqlite_database.cpp"
#include "umpire/event/event_store_recorder.hpp"
#include <cstdio>
// run in a scratch directory
int main() {
  namespace ev = umpire::event;
  const std::size_t sizes[] = {0, 7, 2147483647, std::size_t(1) << 31, (std::size_t(1) << 33) + 5};
  int bad = 0;
  {
    ev::sqlite_database db("events.db");
    for (std::size_t n : sizes) { ev::allocate a; a.size = n; a.ref = &bad; a.ptr = &db; db.insert(a); }
  }
  ev::sqlite_database in("events.db");
  auto got = in.get_events();
  if (got.size() != 5) return 2;
  for (int i = 0; i < 5; ++i)
    if (got[i].numeric_args["size"] != sizes[i]) { printf("%zu read as %zu\n", sizes[i], (std::size_t)got[i].numeric_args["size"]); ++bad; }
  return bad;
}
'''
