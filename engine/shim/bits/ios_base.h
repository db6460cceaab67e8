#pragma once
#include "../sx_ios.hpp"
