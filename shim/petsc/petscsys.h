#pragma once
#include "fakepetsc.hpp"
