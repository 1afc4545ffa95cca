ID='b15-overlap-same-end'; PROPERTY='P26'
NEEDS='Two tracked ranges that end at the same address are compared.'
BREAKS='A range that ends exactly where the other ends is reported as overlapping as well as contained.'
EDITS=[('src/umpire/Umpire.cpp',
r"""            ((right + right_record->size) > (left + left_record->size)));""",
r"""            ((right + right_record->size) >= (left + left_record->size)));""")]
DEMO=r'''
#include "umpire/ResourceManager.hpp"
#include "umpire/Allocator.hpp"
#include "umpire/Umpire.hpp"
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>

int main() {
  auto& rm = umpire::ResourceManager::getInstance();
  auto h = rm.getAllocator("HOST");
  char* p = static_cast<char*>(h.allocate(64));
  rm.registerAllocation(p + 32, {p + 32, 32, h.getAllocationStrategy()});
  return umpire::pointer_contains(p, p + 32) && !umpire::pointer_overlaps(p, p + 32) ? 0 : 1;
}
'''
