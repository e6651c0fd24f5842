#pragma once
#include "FreeRTOS.h"
typedef struct QueueDefinition* QueueHandle_t;
