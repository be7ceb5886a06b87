// A stand-in.
#pragma once
#include "../blas.hpp"
