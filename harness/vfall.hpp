#pragma once
#include "vf.hpp"
#include "geom.hpp"
#include "conv.hpp"
#include "gen.hpp"
#include "refs.hpp"
