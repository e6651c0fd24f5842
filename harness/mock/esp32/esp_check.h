#pragma once
#include "esp_log.h"
#define ESP_RETURN_ON_ERROR(x, ...) do { esp_err_t err_rc_ = (x); if (err_rc_ != ESP_OK) return err_rc_; } while (0)
#define ESP_RETURN_ON_FALSE(x, e, ...) do { if (!(x)) return (e); } while (0)
#define ESP_GOTO_ON_ERROR(x, label, ...) do { esp_err_t err_rc_ = (x); if (err_rc_ != ESP_OK) { ret = err_rc_; goto label; } } while (0)
#define ESP_GOTO_ON_FALSE(x, e, label, ...) do { if (!(x)) { ret = (e); goto label; } } while (0)
