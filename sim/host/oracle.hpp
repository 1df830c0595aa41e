#pragma once
#include "core.hpp"
void oracle_begin();            // after the plan is known
void oracle_finish();           // after every process ended
