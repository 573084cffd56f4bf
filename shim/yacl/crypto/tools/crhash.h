#pragma once
#include "yacl/base/int128.h"
