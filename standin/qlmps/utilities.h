#pragma once
#include "qlmps/core.hpp"
