// A stand-in.
#pragma once
#include "./nda.hpp"
