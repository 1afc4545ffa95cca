ID="b30-file-name-search-limit"; PROPERTY="P24"
NEEDS="A directory with a hundred log files of the same process number and name."
BREAKS="The search for a free name stops after a hundred attempts, so an existing file is overwritten."
EDITS=[("src/umpire/util/io.cpp","""  } while (file_exists(filename));""","""  } while (file_exists(filename) && unique_id < 100);""")]
DEMO=r'''
#include "umpire/util/io.hpp"
#include <cstdio>
#include <fstream>
#include <string>
int main() {
  for (int i = 0; i < 130; ++i) {
    std::string n = umpire::util::make_unique_filename(".", "x", 7, "log");
    if (std::ifstream(n)) { printf("%s exists\n", n.c_str()); return 1; }
    std::ofstream(n) << "x";
  }
  return 0;
}
'''
