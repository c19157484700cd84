#pragma once
#include <vshim/all.hpp>
