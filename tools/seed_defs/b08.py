ID="b08-alias-removed-by-child"; PROPERTY="P14"
NEEDS="An alias is removed by naming an allocator which was created from the alias' owner's parent, i.e. the owner check uses the wrong identity."
BREAKS="An alias can be removed by naming an allocator that does not own it, when that allocator has the owner as parent."
EDITS=[("src/umpire/ResourceManager.cpp","  if (a->second->getId() != allocator.getId()) {","  if (a->second->getId() != allocator.getId() && a->second != allocator.getParent()) {")]
DEMO=r'''
#include "umpire/ResourceManager.hpp"
#include "umpire/Allocator.hpp"
#include "umpire/strategy/QuickPool.hpp"
#include <cstdio>
int main() {
  auto& rm = umpire::ResourceManager::getInstance();
  auto host = rm.getAllocator("HOST");
  auto pool = rm.makeAllocator<umpire::strategy::QuickPool>("demo_pool", host);
  rm.addAlias("nick", host);
  bool threw = false;
  try { rm.removeAlias("nick", pool); } catch (...) { threw = true; }
  return threw && rm.isAllocator("nick") ? 0 : 1;
}
'''
