#pragma once
#include "xtensor/xarray.hpp"
