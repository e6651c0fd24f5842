#pragma once
#include <cstdint>
#include <cstddef>
#include "portmacro.h"
#include "../esp_err.h"
