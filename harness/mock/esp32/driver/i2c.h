#pragma once
#include "../hal/i2c_types.h"
#include "../freertos/FreeRTOS.h"
#define I2C_SCLK_SRC_FLAG_FOR_NOMAL 0
#define I2C_SCLK_SRC_FLAG_AWARE_DFS (1 << 0)
#define I2C_SCLK_SRC_FLAG_LIGHT_SLEEP (1 << 1)
typedef struct {
    i2c_mode_t mode;
    int sda_io_num;
    int scl_io_num;
    bool sda_pullup_en;
    bool scl_pullup_en;
    union {
        struct { uint32_t clk_speed; } master;
        struct { uint8_t addr_10bit_en; uint16_t slave_addr; uint32_t maximum_speed; } slave;
    };
    uint32_t clk_flags;
} i2c_config_t;
typedef void* i2c_cmd_handle_t;
esp_err_t i2c_param_config(i2c_port_t n, const i2c_config_t* c);
esp_err_t i2c_driver_install(i2c_port_t n, i2c_mode_t mode, size_t rx, size_t tx, int flags);
esp_err_t i2c_driver_delete(i2c_port_t n);
esp_err_t i2c_master_write_to_device(i2c_port_t n, uint8_t address, const uint8_t* data, size_t size, TickType_t ticks);
esp_err_t i2c_master_read_from_device(i2c_port_t n, uint8_t address, uint8_t* data, size_t size, TickType_t ticks);
esp_err_t i2c_master_write_read_device(i2c_port_t n, uint8_t address, const uint8_t* w, size_t wn, uint8_t* r, size_t rn, TickType_t ticks);
i2c_cmd_handle_t i2c_cmd_link_create(void);
void i2c_cmd_link_delete(i2c_cmd_handle_t h);
esp_err_t i2c_master_start(i2c_cmd_handle_t h);
esp_err_t i2c_master_stop(i2c_cmd_handle_t h);
esp_err_t i2c_master_write_byte(i2c_cmd_handle_t h, uint8_t data, bool ack_en);
esp_err_t i2c_master_write(i2c_cmd_handle_t h, const uint8_t* data, size_t n, bool ack_en);
esp_err_t i2c_master_read_byte(i2c_cmd_handle_t h, uint8_t* data, i2c_ack_type_t ack);
esp_err_t i2c_master_read(i2c_cmd_handle_t h, uint8_t* data, size_t n, i2c_ack_type_t ack);
esp_err_t i2c_master_cmd_begin(i2c_port_t n, i2c_cmd_handle_t h, TickType_t ticks);
