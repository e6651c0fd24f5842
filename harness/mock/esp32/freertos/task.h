#pragma once
#include "FreeRTOS.h"
void vTaskDelay(const TickType_t ticks);
TickType_t xTaskGetTickCount(void);
void taskYIELD_(void);
#define taskYIELD() taskYIELD_()
