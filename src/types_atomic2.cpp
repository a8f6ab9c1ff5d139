#include "types.hpp"
void types_atomic2(int k, const uint8_t* d, size_t n) {
    switch (k) {
    case 13: return ty::run_type<XmemAtomic, 13>(d, n); case 14: return ty::run_type<XmemAtomic, 14>(d, n); case 15: return ty::run_type<XmemAtomic, 15>(d, n); case 16: return ty::run_type<XmemAtomic, 16>(d, n); case 17: return ty::run_type<XmemAtomic, 17>(d, n); case 18: return ty::run_type<XmemAtomic, 18>(d, n); case 19: return ty::run_type<XmemAtomic, 19>(d, n); case 20: return ty::run_type<XmemAtomic, 20>(d, n); case 21: return ty::run_type<XmemAtomic, 21>(d, n); case 22: return ty::run_type<XmemAtomic, 22>(d, n); case 23: return ty::run_type<XmemAtomic, 23>(d, n); case 24: return ty::run_type<XmemAtomic, 24>(d, n); case 25: return ty::run_type<XmemAtomic, 25>(d, n);
    }
}
