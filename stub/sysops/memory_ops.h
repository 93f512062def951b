// Stand-in for the sysops library (absent in this sandbox): forwards to the C library, and lets a
// harness observe the calls and inject failures through `sysops::memory::ops::hooks`.
#ifndef verif_stub_sysops_memory_ops_h
#define verif_stub_sysops_memory_ops_h
#include <cerrno>
#include <cstddef>
#include <cstdlib>
#include <cstring>
namespace sysops
{
namespace memory
{
namespace ops
{
struct hooks_t
{
    int (*on_alloc)(void **result, std::size_t alignment, std::size_t size){nullptr};
    void (*on_free)(void *ptr){nullptr};
};
inline hooks_t hooks{};
inline int posix_memalign(void **aResult, std::size_t aAlignment, std::size_t aSize)
{
    if (hooks.on_alloc) return hooks.on_alloc(aResult, aAlignment, aSize);
    return ::posix_memalign(aResult, aAlignment, aSize);
}
inline void free(void *aPtr)
{
    if (hooks.on_free)
        hooks.on_free(aPtr);
    else
        ::free(aPtr);
}
inline void *memset_s(void *aPtr, std::size_t aDestSize, int aValue, std::size_t aCount)
{
    volatile unsigned char *p = static_cast<unsigned char *>(aPtr);
    for (std::size_t i = 0; i < aCount && i < aDestSize; ++i) p[i] = static_cast<unsigned char>(aValue);
    return aPtr;
}
}  // namespace ops
}  // namespace memory
}  // namespace sysops
#endif
