#pragma once
#include "fakesun.hpp"
