#include "types.hpp"
void types_local2(int k, const uint8_t* d, size_t n) {
    switch (k) {
    case 13: return ty::run_type<XmemLocal, 13>(d, n); case 14: return ty::run_type<XmemLocal, 14>(d, n); case 15: return ty::run_type<XmemLocal, 15>(d, n); case 16: return ty::run_type<XmemLocal, 16>(d, n); case 17: return ty::run_type<XmemLocal, 17>(d, n); case 18: return ty::run_type<XmemLocal, 18>(d, n); case 19: return ty::run_type<XmemLocal, 19>(d, n); case 20: return ty::run_type<XmemLocal, 20>(d, n); case 21: return ty::run_type<XmemLocal, 21>(d, n); case 22: return ty::run_type<XmemLocal, 22>(d, n); case 23: return ty::run_type<XmemLocal, 23>(d, n); case 24: return ty::run_type<XmemLocal, 24>(d, n); case 25: return ty::run_type<XmemLocal, 25>(d, n);
    }
}
