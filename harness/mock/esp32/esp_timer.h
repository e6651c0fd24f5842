#pragma once
#include "esp_err.h"
int64_t esp_timer_get_time(void);
