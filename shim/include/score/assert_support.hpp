#ifndef VERIF_SHIM_ASSERT_SUPPORT_HPP
#define VERIF_SHIM_ASSERT_SUPPORT_HPP
#include "score/assert.hpp"
#endif
