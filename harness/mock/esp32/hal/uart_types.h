#pragma once
#include "../esp_err.h"
typedef int uart_port_t;
#define UART_NUM_0 0
#define UART_NUM_1 1
#define UART_NUM_2 2
#define UART_NUM_MAX 3
typedef enum { UART_DATA_5_BITS = 0x0, UART_DATA_6_BITS = 0x1, UART_DATA_7_BITS = 0x2, UART_DATA_8_BITS = 0x3, UART_DATA_BITS_MAX = 0x4 } uart_word_length_t;
typedef enum { UART_STOP_BITS_1 = 0x1, UART_STOP_BITS_1_5 = 0x2, UART_STOP_BITS_2 = 0x3, UART_STOP_BITS_MAX = 0x4 } uart_stop_bits_t;
typedef enum { UART_PARITY_DISABLE = 0x0, UART_PARITY_EVEN = 0x2, UART_PARITY_ODD = 0x3 } uart_parity_t;
typedef enum { UART_HW_FLOWCTRL_DISABLE = 0x0, UART_HW_FLOWCTRL_RTS = 0x1, UART_HW_FLOWCTRL_CTS = 0x2, UART_HW_FLOWCTRL_CTS_RTS = 0x3, UART_HW_FLOWCTRL_MAX = 0x4 } uart_hw_flowcontrol_t;
typedef enum { UART_SCLK_APB = 4, UART_SCLK_DEFAULT = 4, UART_SCLK_REF_TICK = 1 } uart_sclk_t;
typedef struct {
    int baud_rate;
    uart_word_length_t data_bits;
    uart_parity_t parity;
    uart_stop_bits_t stop_bits;
    uart_hw_flowcontrol_t flow_ctrl;
    uint8_t rx_flow_ctrl_thresh;
    uart_sclk_t source_clk;
    struct { uint32_t allow_pd: 1; uint32_t backup_before_sleep: 1; } flags;
} uart_config_t;
