#pragma once
#include "world.hpp"
template <typename P>
void run_program(const uint8_t* ops, size_t n, RunCtx& ctx, Options opt) {
    if (!P::is_ref) { track::reset(); track::st.on = true; }
    {
        World<P> w(ctx, opt);
        for (size_t i = 0; i + OPSZ <= n; i += OPSZ) w.exec(ops + i);
        w.teardown();
    }
    if (!P::is_ref) {
        track::st.on = false;
        if (track::st.live) {
            char b[100];
            track::describe_live(b, sizeof(b));
            eng::fail("%s: %llu blocks of memory are leaked, among them %s", P::name, static_cast<unsigned long long>(track::st.live), b);
        }
    }
}
