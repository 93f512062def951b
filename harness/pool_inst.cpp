// Instantiates a part of the pool configurations; compiled with -DPART=0..6.
#include "pool.hpp"
namespace pool
{
// ctor forms: 0 (buf,size,up) 1 (buf,size) 2 array(256)+up 3 array(256)
template <std::size_t N, std::size_t B>
struct Pool final : IPool
{
    using R = um::simple_resource<N, B>;
    using I = typename R::BIndex;
    R r;
    Pool(std::byte *b, std::size_t s, um::memory_resource *u) : r(b, s, u) {}
    Pool(std::byte *b, std::size_t s) : r(b, s) {}
    Pool(std::byte (&b)[256], um::memory_resource *u) : r(b, u) {}
    explicit Pool(std::byte (&b)[256]) : r(b) {}
    um::memory_resource &base() { return r; }
    void *alloc(std::size_t s, std::size_t a) override { return base().allocate(s, a); }
    void *alloc_default(std::size_t s) override { return base().allocate(s); }
    void *alloc_typed(int k) override
    {
        switch (k)
        {
            case 0: return base().template allocate<T8>();
            case 1: return base().template allocate<T32>();
            default: return base().template allocate<T1>();
        }
    }
    void dealloc(void *p) override { base().deallocate(p); }
    void release() override { r.release(); }
    const std::byte *data() const override { return r.data(); }
    std::size_t size() const override { return r.size(); }
    std::size_t max_blocks() const override { return R::kMaxBlockCount; }
    std::size_t bs() const override { return R::kBlockSize; }
    std::size_t next(std::size_t i) const override { return r.at((I)i).next_index(); }
    std::size_t prev(std::size_t i) const override { return r.at((I)i).prev_index(); }
    bool in_use(std::size_t i) const override { return r.in_use((I)i); }
    std::size_t block_size(std::size_t i) const override { return r.block_size((I)i); }
    std::size_t block_size_bytes(std::size_t i) const override { return r.block_size_in_bytes((I)i); }
    std::size_t info_next(std::size_t i) const override { return r.infos()[i].next_index(); }
    std::size_t free_count() const override { return r.free_count(); }
    std::size_t busy_count() const override { return r.busy_count(); }
    um::memory_resource *res() override { return &r; }
};

template <std::size_t N, std::size_t B>
IPool *make(int form, std::byte *buf, std::size_t size, um::memory_resource *up)
{
    using P = Pool<N, B>;
    switch (form)
    {
        case 0: return new P(buf, size, up);
        case 1:
        {
            auto *old = um::set_default_resource(up);
            auto *p = new P(buf, size);
            um::set_default_resource(old);
            return p;
        }
        case 2: return new P(reinterpret_cast<std::byte(&)[256]>(*buf), up);
        default:
        {
            auto *old = um::set_default_resource(up);
            auto *p = new P(reinterpret_cast<std::byte(&)[256]>(*buf));
            um::set_default_resource(old);
            return p;
        }
    }
}
#define POOL_CFG(n, b) \
    Cfg { n, b, &make<n, b> }
#if PART == 0
const std::vector<Cfg> &part0()
{
    static const std::vector<Cfg> v{POOL_CFG(4, 16), POOL_CFG(2, 16), POOL_CFG(3, 8), POOL_CFG(4, 32), POOL_CFG(1, 16)};
    return v;
}
#elif PART == 1
const std::vector<Cfg> &part1()
{
    static const std::vector<Cfg> v{POOL_CFG(5, 64), POOL_CFG(8, 16), POOL_CFG(16, 8), POOL_CFG(32, 4)};
    return v;
}
#elif PART == 2
const std::vector<Cfg> &part2()
{
    static const std::vector<Cfg> v{POOL_CFG(64, 64), POOL_CFG(100, 8), POOL_CFG(2, 1), POOL_CFG(7, 512), POOL_CFG(1, 1)};
    return v;
}
#elif PART == 3
const std::vector<Cfg> &part3()
{
    static const std::vector<Cfg> v{POOL_CFG(12, 128), POOL_CFG(33, 2), POOL_CFG(9, 4096), POOL_CFG(6, 32), POOL_CFG(1, 256)};
    return v;
}
#elif PART == 4
const std::vector<Cfg> &part4()
{
    static const std::vector<Cfg> v{POOL_CFG(255, 16), POOL_CFG(256, 16), POOL_CFG(257, 8),
                                    POOL_CFG(256, 1),  POOL_CFG(300, 4),  POOL_CFG(1000, 2)};
    return v;
}
#elif PART == 6
const std::vector<Cfg> &part6()
{
    static const std::vector<Cfg> v{POOL_CFG(6, std::size_t{1} << 30), POOL_CFG(20, std::size_t{1} << 28),
                                    POOL_CFG(300, std::size_t{1} << 24), POOL_CFG(70000, 65536),
                                    POOL_CFG(3, std::size_t{1} << 31), POOL_CFG(2, std::size_t{1} << 32)};
    return v;
}
#else
const std::vector<Cfg> &part5()
{
    static const std::vector<Cfg> v{POOL_CFG(65535, 8), POOL_CFG(65536, 8), POOL_CFG(65537, 4)};
    return v;
}
#endif
}  // namespace pool
