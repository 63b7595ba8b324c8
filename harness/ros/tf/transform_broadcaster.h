#pragma once
#include "tf.h"
