#include "driver/gpio.h"
