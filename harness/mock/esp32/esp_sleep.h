#pragma once
#include "esp_err.h"
typedef enum { ESP_SLEEP_WAKEUP_UNDEFINED, ESP_SLEEP_WAKEUP_ALL, ESP_SLEEP_WAKEUP_EXT0, ESP_SLEEP_WAKEUP_EXT1, ESP_SLEEP_WAKEUP_TIMER } esp_sleep_source_t;
typedef esp_sleep_source_t esp_sleep_wakeup_cause_t;
esp_err_t esp_sleep_enable_timer_wakeup(uint64_t time_in_us);
esp_err_t esp_sleep_disable_wakeup_source(esp_sleep_source_t source);
esp_err_t esp_light_sleep_start(void);
void esp_deep_sleep_start(void);
void esp_deep_sleep(uint64_t time_in_us);
esp_sleep_wakeup_cause_t esp_sleep_get_wakeup_cause(void);
