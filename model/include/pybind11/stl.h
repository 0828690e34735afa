#pragma once
#include <list>
#include <map>
#include <optional>
#include <set>
#include <vector>
#include <pybind11/pybind11.h>
