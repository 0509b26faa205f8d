#pragma once
#include "pytensor.hpp"
