#include "../driver/gpio.h"
