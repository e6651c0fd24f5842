#pragma once
#include "../esp_err.h"
#define SOC_ADC_PERIPH_NUM 2
#define SOC_ADC_MAX_CHANNEL_NUM 10
#ifndef SOC_GPIO_PIN_COUNT
#define SOC_GPIO_PIN_COUNT 40
#endif
#define SOC_ADC_CHANNEL_NUM(u) ((u) == 0 ? 8 : 10)
extern const int adc_channel_io_map[SOC_ADC_PERIPH_NUM][SOC_ADC_MAX_CHANNEL_NUM];
