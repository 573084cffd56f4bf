#pragma once
#include "brpc/shim.h"
