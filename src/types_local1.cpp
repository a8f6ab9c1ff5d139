#include "types.hpp"
void types_local1(int k, const uint8_t* d, size_t n) {
    switch (k) {
    case 0: return ty::run_type<XmemLocal, 0>(d, n); case 1: return ty::run_type<XmemLocal, 1>(d, n); case 2: return ty::run_type<XmemLocal, 2>(d, n); case 3: return ty::run_type<XmemLocal, 3>(d, n); case 4: return ty::run_type<XmemLocal, 4>(d, n); case 5: return ty::run_type<XmemLocal, 5>(d, n); case 6: return ty::run_type<XmemLocal, 6>(d, n); case 7: return ty::run_type<XmemLocal, 7>(d, n); case 8: return ty::run_type<XmemLocal, 8>(d, n); case 9: return ty::run_type<XmemLocal, 9>(d, n); case 10: return ty::run_type<XmemLocal, 10>(d, n); case 11: return ty::run_type<XmemLocal, 11>(d, n); case 12: return ty::run_type<XmemLocal, 12>(d, n);
    }
}
