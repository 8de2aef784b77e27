// The same real package, built with different table sizes: tiny tables make every hash bucket collide and
// every slot be reused all the time.
#pragma once
#include "dd/Package.hpp"
namespace sim {
struct CfgTiny: public dd::DDPackageConfig {
    static constexpr std::size_t UT_VEC_NBUCKET                 = 1U;
    static constexpr std::size_t UT_VEC_INITIAL_ALLOCATION_SIZE = 1U;
    static constexpr std::size_t UT_MAT_NBUCKET                 = 1U;
    static constexpr std::size_t UT_MAT_INITIAL_ALLOCATION_SIZE = 1U;
    static constexpr std::size_t CT_VEC_ADD_NBUCKET             = 1U;
    static constexpr std::size_t CT_MAT_ADD_NBUCKET             = 1U;
    static constexpr std::size_t CT_MAT_TRANS_NBUCKET           = 1U;
    static constexpr std::size_t CT_MAT_CONJ_TRANS_NBUCKET      = 1U;
    static constexpr std::size_t CT_MAT_VEC_MULT_NBUCKET        = 1U;
    static constexpr std::size_t CT_MAT_MAT_MULT_NBUCKET        = 1U;
    static constexpr std::size_t CT_VEC_KRON_NBUCKET            = 1U;
    static constexpr std::size_t CT_MAT_KRON_NBUCKET            = 1U;
    static constexpr std::size_t CT_VEC_INNER_PROD_NBUCKET      = 1U;
    static constexpr std::size_t STOCHASTIC_CACHE_OPS           = 3U;
};
struct CfgSmall: public dd::DDPackageConfig {
    static constexpr std::size_t UT_VEC_NBUCKET                 = 8U;
    static constexpr std::size_t UT_VEC_INITIAL_ALLOCATION_SIZE = 4U;
    static constexpr std::size_t UT_MAT_NBUCKET                 = 4U;
    static constexpr std::size_t UT_MAT_INITIAL_ALLOCATION_SIZE = 3U;
    static constexpr std::size_t CT_VEC_ADD_NBUCKET             = 16U;
    static constexpr std::size_t CT_MAT_ADD_NBUCKET             = 8U;
    static constexpr std::size_t CT_MAT_TRANS_NBUCKET           = 4U;
    static constexpr std::size_t CT_MAT_CONJ_TRANS_NBUCKET      = 4U;
    static constexpr std::size_t CT_MAT_VEC_MULT_NBUCKET        = 16U;
    static constexpr std::size_t CT_MAT_MAT_MULT_NBUCKET        = 16U;
    static constexpr std::size_t CT_VEC_KRON_NBUCKET            = 4U;
    static constexpr std::size_t CT_MAT_KRON_NBUCKET            = 4U;
    static constexpr std::size_t CT_VEC_INNER_PROD_NBUCKET      = 4U;
    static constexpr std::size_t CT_DM_NOISE_NBUCKET            = 4U;
    static constexpr std::size_t UT_DM_NBUCKET                  = 4U;
    static constexpr std::size_t UT_DM_INITIAL_ALLOCATION_SIZE  = 2U;
    static constexpr std::size_t CT_DM_DM_MULT_NBUCKET          = 8U;
    static constexpr std::size_t CT_DM_ADD_NBUCKET              = 8U;
    static constexpr std::size_t STOCHASTIC_CACHE_OPS           = 4U;
};
// table sizes as a density-operator simulation would choose them
struct CfgDM: public dd::DDPackageConfig {
    static constexpr std::size_t UT_VEC_NBUCKET                 = 64U;
    static constexpr std::size_t UT_VEC_INITIAL_ALLOCATION_SIZE = 16U;
    static constexpr std::size_t UT_MAT_NBUCKET                 = 256U;
    static constexpr std::size_t UT_MAT_INITIAL_ALLOCATION_SIZE = 32U;
    static constexpr std::size_t CT_VEC_ADD_NBUCKET             = 64U;
    static constexpr std::size_t CT_MAT_ADD_NBUCKET             = 64U;
    static constexpr std::size_t CT_MAT_TRANS_NBUCKET           = 64U;
    static constexpr std::size_t CT_MAT_CONJ_TRANS_NBUCKET      = 64U;
    static constexpr std::size_t CT_MAT_VEC_MULT_NBUCKET        = 64U;
    static constexpr std::size_t CT_MAT_MAT_MULT_NBUCKET        = 64U;
    static constexpr std::size_t CT_DM_NOISE_NBUCKET            = 1024U;
    static constexpr std::size_t UT_DM_NBUCKET                  = 512U;
    static constexpr std::size_t UT_DM_INITIAL_ALLOCATION_SIZE  = 64U;
    static constexpr std::size_t CT_DM_DM_MULT_NBUCKET          = 1024U;
    static constexpr std::size_t CT_DM_ADD_NBUCKET              = 512U;
    static constexpr std::size_t STOCHASTIC_CACHE_OPS           = 5U;
};
} // namespace sim
