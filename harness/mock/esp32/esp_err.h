#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdlib>
#include "esp_bit_defs.h"
typedef int esp_err_t;
#define ESP_OK 0
#define ESP_FAIL -1
#define ESP_ERR_NO_MEM 0x101
#define ESP_ERR_INVALID_ARG 0x102
#define ESP_ERR_INVALID_STATE 0x103
#define ESP_ERR_INVALID_SIZE 0x104
#define ESP_ERR_NOT_FOUND 0x105
#define ESP_ERR_NOT_SUPPORTED 0x106
#define ESP_ERR_TIMEOUT 0x107
#define ESP_ERR_INVALID_RESPONSE 0x108
void mock_error_check_failed(esp_err_t e);
#define ESP_ERROR_CHECK(x) do { esp_err_t err_rc_ = (x); if (err_rc_ != ESP_OK) { mock_error_check_failed(err_rc_); } } while (0)
inline esp_err_t mock_error_check_without_abort(esp_err_t e) { return e; }
#define ESP_ERROR_CHECK_WITHOUT_ABORT(x) mock_error_check_without_abort(x)
inline const char* esp_err_to_name(esp_err_t) { return "error"; }
