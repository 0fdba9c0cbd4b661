#pragma once
#include "ehvi_calculations.h"
