#ifndef VERIF_SHIM_HASH_HPP
#define VERIF_SHIM_HASH_HPP
#include <cstddef>
#include <cstdint>
namespace score
{
namespace cpp
{
inline std::uint64_t hash_bytes_fnv1a_64(const void* data, std::size_t size, std::uint64_t seed = 14695981039346656037ULL)
{
    const auto* p = static_cast<const unsigned char*>(data);
    std::uint64_t h = seed;
    for (std::size_t i = 0; i < size; ++i)
    {
        h ^= p[i];
        h *= 1099511628211ULL;
    }
    return h;
}
inline std::size_t hash_bytes(const void* data, std::size_t size)
{
    return static_cast<std::size_t>(hash_bytes_fnv1a_64(data, size));
}
inline std::size_t hash_bytes(const void* data, std::size_t size, std::size_t seed)
{
    return static_cast<std::size_t>(hash_bytes_fnv1a_64(data, size, seed));
}
}  // namespace cpp
}  // namespace score
#endif
