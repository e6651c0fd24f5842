#pragma once
#include "../hal/uart_types.h"
#include "../freertos/FreeRTOS.h"
#include "../freertos/queue.h"
#define UART_PIN_NO_CHANGE (-1)
#define UART_HW_FIFO_LEN(n) 128
#define UART_FIFO_LEN 128
#define ESP_INTR_FLAG_IRAM (1 << 10)
bool uart_is_driver_installed(uart_port_t n);
esp_err_t uart_param_config(uart_port_t n, const uart_config_t* c);
esp_err_t uart_set_pin(uart_port_t n, int tx, int rx, int rts, int cts);
esp_err_t uart_driver_install(uart_port_t n, int rx, int tx, int queue, QueueHandle_t* q, int flags);
esp_err_t uart_driver_delete(uart_port_t n);
int uart_write_bytes(uart_port_t n, const void* src, size_t size);
int uart_tx_chars(uart_port_t n, const char* buffer, uint32_t len);
int uart_read_bytes(uart_port_t n, void* buf, uint32_t length, TickType_t ticks);
esp_err_t uart_wait_tx_done(uart_port_t n, TickType_t ticks);
esp_err_t uart_get_buffered_data_len(uart_port_t n, size_t* size);
esp_err_t uart_flush_input(uart_port_t n);
esp_err_t uart_flush(uart_port_t n);
