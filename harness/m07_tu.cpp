// A second translation unit of the same program.
#include <utils/memory/allocator.h>
#include <utils/memory/monotonic_buffer_resource.h>
#include <utils/memory/simple_resource.h>
namespace um = utils::memory;
static um::allocator<char> static_allocator2;
um::memory_resource *static_resource2() { return static_allocator2.resource(); }
um::memory_resource *system2() { return um::system_memory_resource(); }
um::memory_resource *null2() { return um::null_memory_resource(); }
um::memory_resource *get2() { return um::get_default_resource(); }
um::memory_resource *set2(um::memory_resource *r) { return um::set_default_resource(r); }
um::memory_resource *alloc2()
{
    um::allocator<long> a;
    return a.resource();
}
