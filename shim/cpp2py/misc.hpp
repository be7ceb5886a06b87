#pragma once
#include <cpp2py/cpp2py.hpp>
