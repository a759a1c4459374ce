// Forced into every library TU: stands in for the relic wrapper header (relic is not installed).
#pragma once
#ifdef __cplusplus
namespace relicxx {
struct relicResourceHandle
{
    explicit relicResourceHandle(bool) {}
};
} // namespace relicxx
#endif
