#pragma once
#include <ginkgo/ginkgo.hpp>
