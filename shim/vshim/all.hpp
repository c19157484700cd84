#pragma once
#include <vshim/plonk.hpp>
#include <vshim/curve.hpp>
#include <vshim/hash.hpp>
#include <vshim/math.hpp>
#include <vshim/marshalling.hpp>
