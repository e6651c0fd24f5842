// AnalogPin as compilers before GCC 9 see it (older ESP-IDF: the converter is powered around the read).
#include <cstdint>
#include <tuple>
#include <optional>
#include "soc/adc_periph.h"
#include "esp_adc/adc_oneshot.h"
#undef __GNUC__
#define __GNUC__ 8
#include "esp32-esp-idf/AnalogPin.cpp"
