#include "types.hpp"
void types_atomic1(int k, const uint8_t* d, size_t n) {
    switch (k) {
    case 0: return ty::run_type<XmemAtomic, 0>(d, n); case 1: return ty::run_type<XmemAtomic, 1>(d, n); case 2: return ty::run_type<XmemAtomic, 2>(d, n); case 3: return ty::run_type<XmemAtomic, 3>(d, n); case 4: return ty::run_type<XmemAtomic, 4>(d, n); case 5: return ty::run_type<XmemAtomic, 5>(d, n); case 6: return ty::run_type<XmemAtomic, 6>(d, n); case 7: return ty::run_type<XmemAtomic, 7>(d, n); case 8: return ty::run_type<XmemAtomic, 8>(d, n); case 9: return ty::run_type<XmemAtomic, 9>(d, n); case 10: return ty::run_type<XmemAtomic, 10>(d, n); case 11: return ty::run_type<XmemAtomic, 11>(d, n); case 12: return ty::run_type<XmemAtomic, 12>(d, n);
    }
}
