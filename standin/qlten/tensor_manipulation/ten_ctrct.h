#include "qlten/core.hpp"
