#pragma once
#include "tbb/simtbb.h"
