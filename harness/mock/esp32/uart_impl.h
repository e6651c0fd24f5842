// The ESP-IDF UART driver on the simulated UART, and the clock.
#pragma once
#include "driver/uart.h"
#include "freertos/task.h"
#include "esp_timer.h"
#include "../uart_world.h"

#ifdef MOCK_UART_INIT
struct Aborted {}; // ESP_ERROR_CHECK ends the program
void mock_error_check_failed(esp_err_t) { throw Aborted(); }
#else
void mock_error_check_failed(esp_err_t) { drv::Ev("Abort").emit(); _exit(3); }
#endif
int64_t esp_timer_get_time() { world::touch(); return (int64_t)world::clock(); }
void taskYIELD_() { world::touch(); }
TickType_t xTaskGetTickCount() { world::touch(); return (TickType_t)(world::clock() / (MOCK_TICK_MS * 1000)); }
// waiting n ticks ends at the n-th tick from now
inline uint64_t tick_end(TickType_t n)
{
    const uint64_t T = MOCK_TICK_MS * 1000;
    return (world::clock() / T + n) * T - world::base;
}
void vTaskDelay(const TickType_t n)
{
    world::touch();
    if (n) world::us = std::max(world::us, tick_end(n));
}
int uart_read_bytes(uart_port_t p, void* buf, uint32_t length, TickType_t ticks)
{
    world::touch();
    if (p != uart::port) { drv::Ev("WrongPort").num("port", p).emit(); return -1; }
    if (uart::readErrors.count(uart::reads++)) return -1;
    uint32_t n = 0;
    while (n < length)
    {
        if (!uart::available())
        {
            if (ticks == portMAX_DELAY)
            {
                if (uart::arrivals.empty()) world::hang();
                world::us = uart::arrivals.front().first;
            }
            else
            {
                uint64_t end = std::max(world::us, ticks ? tick_end(ticks) : 0);
                if (uart::arrivals.empty() || uart::arrivals.front().first > end) { world::us = end; break; }
                world::us = std::max(world::us, uart::arrivals.front().first);
            }
        }
        ((uint8_t*)buf)[n++] = uart::take();
    }
    return n;
}
int uart_write_bytes(uart_port_t p, const void* d, size_t n) { world::touch(); return uart::send((const uint8_t*)d, n, p); }
int uart_tx_chars(uart_port_t p, const char* d, uint32_t n) { world::touch(); return uart::send((const uint8_t*)d, n, p); }
esp_err_t uart_wait_tx_done(uart_port_t p, TickType_t ticks)
{
    world::touch();
    if (ticks == 0) return uart::pending ? ESP_ERR_TIMEOUT : ESP_OK;
    uart::drained(p);
    return ESP_OK;
}
esp_err_t uart_get_buffered_data_len(uart_port_t p, size_t* n) { world::touch(); *n = p == uart::port ? uart::buffered() : 0; return ESP_OK; }
esp_err_t uart_flush_input(uart_port_t p) { world::touch(); uart::drop(p); return ESP_OK; }
esp_err_t uart_flush(uart_port_t p) { return uart_flush_input(p); }
#ifndef MOCK_UART_INIT
bool uart_is_driver_installed(uart_port_t) { return true; }
esp_err_t uart_param_config(uart_port_t, const uart_config_t*) { return ESP_OK; }
esp_err_t uart_set_pin(uart_port_t, int, int, int, int) { return ESP_OK; }
esp_err_t uart_driver_install(uart_port_t, int, int, int, QueueHandle_t*, int) { return ESP_OK; }
esp_err_t uart_driver_delete(uart_port_t) { return ESP_OK; }
#endif
