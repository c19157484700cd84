#pragma once
#include <vshim/all.hpp>
// The repository's tests name these without the crypto3 qualifier.
#include <chrono>
#include <boost/random.hpp>
namespace zk = nil::crypto3::zk;
