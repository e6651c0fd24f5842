#pragma once
#include <cstdint>
typedef uint32_t TickType_t;
typedef int BaseType_t;
typedef unsigned int UBaseType_t;
#ifndef MOCK_TICK_MS
#define MOCK_TICK_MS 10
#endif
#define configTICK_RATE_HZ (1000 / MOCK_TICK_MS)
#define portMAX_DELAY (TickType_t) 0xffffffffUL
#define portTICK_PERIOD_MS ((TickType_t) 1000 / configTICK_RATE_HZ)
#define portTICK_RATE_MS portTICK_PERIOD_MS
#define pdMS_TO_TICKS(ms) ((TickType_t)(((uint64_t)(ms) * configTICK_RATE_HZ) / 1000))
#define pdTICKS_TO_MS(t) ((TickType_t)((uint64_t)(t) * 1000 / configTICK_RATE_HZ))
#define pdTRUE 1
#define pdFALSE 0
