ID="b33-c-realloc-null"; PROPERTY="P25"
NEEDS="Reallocating a null pointer with an explicit allocator that is not the default one, from C."
BREAKS="The C function takes a shortcut for null pointers that allocates from the default allocator."
EDITS=[("src/umpire/interface/c_fortran/wrapResourceManager.cpp","""    void * SHC_rv = SH_this->reallocate(src_ptr, size,
        *SHCXX_allocator);
    return SHC_rv;""","""    if (src_ptr == nullptr)
        return SH_this->reallocate(src_ptr, size);
    void * SHC_rv = SH_this->reallocate(src_ptr, size,
        *SHCXX_allocator);
    return SHC_rv;""")]
DEMO=r'''
#include "umpire/ResourceManager.hpp"
#include "umpire/Allocator.hpp"
#include "umpire/interface/c_fortran/wrapResourceManager.h"
#include "umpire/interface/c_fortran/wrapAllocator.h"
#include <cstdio>
int main() {
  umpire_resourcemanager rm; umpire_resourcemanager_get_instance(&rm);
  umpire_allocator h, q; umpire_resourcemanager_get_allocator_by_name(&rm, "HOST", &h);
  umpire_resourcemanager_make_allocator_quick_pool(&rm, "q", h, 1024, 1024, &q);
  umpire_resourcemanager_reallocate_with_allocator(&rm, nullptr, 64, q);
  printf("%zu allocations in the pool\n", umpire_allocator_get_allocation_count(&q));
  return umpire_allocator_get_allocation_count(&q) == 1 ? 0 : 1;
}
'''
