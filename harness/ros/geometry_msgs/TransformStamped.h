#pragma once
#include "../std_header.h"
