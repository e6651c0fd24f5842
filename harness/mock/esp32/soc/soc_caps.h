#pragma once
#include "../driver/gpio.h"
#include "adc_periph.h"
