// A stand-in, written from the documented interface, for the header library the code under test includes under this name.
#pragma once
#include "./linalg/det_and_inverse.hpp"
#include "./linalg/eigenelements.hpp"
#include "./linalg/cross_product.hpp"
#include "./blas.hpp"
