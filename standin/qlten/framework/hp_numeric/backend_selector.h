#include "qlten/core.hpp"
#include "qlten/lapacke_standin.hpp"
