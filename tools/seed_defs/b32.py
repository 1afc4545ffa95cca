ID="b32-fortran-name-trimmed"; PROPERTY="P25"
NEEDS="A name that ends with blanks, passed with its length to the function that adds an alias."
BREAKS="The length-passing form of add_alias drops trailing blanks, so the alias is registered under another name."
EDITS=[("src/umpire/interface/c_fortran/wrapResourceManager.cpp","""    // splicer begin class.ResourceManager.method.add_alias_bufferify
    const std::string SHCXX_name(name, Lname);
""","""    // splicer begin class.ResourceManager.method.add_alias_bufferify
    while (Lname > 1 && name[Lname - 1] == ' ')
        --Lname;
    const std::string SHCXX_name(name, Lname);
""")]
DEMO=r'''
#include "umpire/ResourceManager.hpp"
#include "umpire/Allocator.hpp"
#include "umpire/interface/c_fortran/wrapResourceManager.h"
#include "umpire/interface/c_fortran/wrapAllocator.h"
#include <cstdio>
extern "C" void umpire_resourcemanager_add_alias_bufferify(umpire_resourcemanager* self, const char* name, int Lname, umpire_allocator allocator);
int main() {
  umpire_resourcemanager rm; umpire_resourcemanager_get_instance(&rm);
  umpire_allocator h; umpire_resourcemanager_get_allocator_by_name(&rm, "HOST", &h);
  umpire_resourcemanager_add_alias_bufferify(&rm, "main  ", 6, h);
  if (!umpire::ResourceManager::getInstance().isAllocator("main  ")) { puts("no such alias"); return 1; }
  return 0;
}
'''
