#pragma once
#include "../esp_err.h"
typedef enum { GPIO_NUM_NC = -1, GPIO_NUM_0 = 0, GPIO_NUM_MAX = 40 } gpio_num_t;
#define SOC_GPIO_PIN_COUNT 40
// 20, 24 and 28..31 do not exist; 34..39 are inputs only
#define SOC_GPIO_VALID_GPIO_MASK (0xFFFFFFFFFFULL & ~(0ULL | 1ULL << 20 | 1ULL << 24 | 1ULL << 28 | 1ULL << 29 | 1ULL << 30 | 1ULL << 31))
#define SOC_GPIO_VALID_OUTPUT_GPIO_MASK (SOC_GPIO_VALID_GPIO_MASK & ~(0ULL | 1ULL << 34 | 1ULL << 35 | 1ULL << 36 | 1ULL << 37 | 1ULL << 38 | 1ULL << 39))
#define GPIO_IS_VALID_GPIO(n) ((n) >= 0 && (n) < 64 && (((1ULL << (n)) & SOC_GPIO_VALID_GPIO_MASK) != 0))
#define GPIO_IS_VALID_OUTPUT_GPIO(n) ((n) >= 0 && (n) < 64 && (((1ULL << (n)) & SOC_GPIO_VALID_OUTPUT_GPIO_MASK) != 0))
typedef enum { GPIO_MODE_DISABLE = 0, GPIO_MODE_INPUT = 1, GPIO_MODE_OUTPUT = 2, GPIO_MODE_OUTPUT_OD = 6, GPIO_MODE_INPUT_OUTPUT_OD = 7, GPIO_MODE_INPUT_OUTPUT = 3 } gpio_mode_t;
typedef enum { GPIO_PULLUP_DISABLE = 0, GPIO_PULLUP_ENABLE = 1 } gpio_pullup_t;
typedef enum { GPIO_PULLDOWN_DISABLE = 0, GPIO_PULLDOWN_ENABLE = 1 } gpio_pulldown_t;
typedef enum { GPIO_PULLUP_ONLY, GPIO_PULLDOWN_ONLY, GPIO_PULLUP_PULLDOWN, GPIO_FLOATING } gpio_pull_mode_t;
typedef enum { GPIO_INTR_DISABLE = 0, GPIO_INTR_POSEDGE = 1, GPIO_INTR_NEGEDGE = 2, GPIO_INTR_ANYEDGE = 3 } gpio_int_type_t;
typedef struct {
    uint64_t pin_bit_mask;
    gpio_mode_t mode;
    gpio_pullup_t pull_up_en;
    gpio_pulldown_t pull_down_en;
    gpio_int_type_t intr_type;
} gpio_config_t;
esp_err_t gpio_config(const gpio_config_t* c);
esp_err_t gpio_set_level(gpio_num_t n, uint32_t level);
int gpio_get_level(gpio_num_t n);
esp_err_t gpio_set_direction(gpio_num_t n, gpio_mode_t mode);
esp_err_t gpio_set_pull_mode(gpio_num_t n, gpio_pull_mode_t pull);
esp_err_t gpio_reset_pin(gpio_num_t n);
