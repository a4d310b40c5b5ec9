// Force-included (-include) when the harnesses compile /repo's sources.
// src/config_parser.cpp prints std::optional values, which needs fmt >= 10; this sandbox has fmt 9.1.
// The formatter below mirrors what fmt >= 10 prints. It changes nothing but the ability to compile.
#pragma once
#include <fmt/core.h>
#if FMT_VERSION < 100000
#    include <fmt/format.h>
#    include <optional>
template<typename T>
struct fmt::formatter<std::optional<T>>
{
    constexpr auto parse( format_parse_context & c )
    {
        return c.begin();
    }
    template<class C>
    auto format( const std::optional<T> & o, C & ctx ) const
    {
        if( o )
            return fmt::format_to( ctx.out(), "optional({})", *o );
        return fmt::format_to( ctx.out(), "none" );
    }
};
#endif
