#pragma once
#include "sxarchive.hpp"
