#pragma once
// gbs-mesh/smoothing.h has no include guard
#include <gbs-mesh/smoothing.h>
