#pragma once
#include "../esp_err.h"
#include "../hal/i2c_types.h"
#include "../freertos/FreeRTOS.h"
typedef void* i2c_cmd_handle_t;
#define I2C_SCLK_SRC_FLAG_FOR_NOMAL 0
struct i2c_config_t
{
    i2c_mode_t mode;
    int sda_io_num, scl_io_num;
    bool sda_pullup_en, scl_pullup_en;
    union { struct { uint32_t clk_speed; } master; struct { uint16_t slave_addr; } slave; };
    uint32_t clk_flags;
};
extern "C" {
esp_err_t i2c_param_config(i2c_port_t port, const i2c_config_t* conf);
esp_err_t i2c_driver_install(i2c_port_t port, i2c_mode_t mode, size_t rx, size_t tx, int flags);
esp_err_t i2c_driver_delete(i2c_port_t port);
esp_err_t i2c_master_write_to_device(i2c_port_t port, uint8_t addr, const uint8_t* data, size_t n, TickType_t ticks);
esp_err_t i2c_master_read_from_device(i2c_port_t port, uint8_t addr, uint8_t* data, size_t n, TickType_t ticks);
i2c_cmd_handle_t i2c_cmd_link_create();
void i2c_cmd_link_delete(i2c_cmd_handle_t h);
esp_err_t i2c_master_start(i2c_cmd_handle_t h);
esp_err_t i2c_master_write_byte(i2c_cmd_handle_t h, uint8_t data, bool ack);
esp_err_t i2c_master_write(i2c_cmd_handle_t h, const uint8_t* data, size_t n, bool ack);
esp_err_t i2c_master_write_read_device(i2c_port_t port, uint8_t addr, const uint8_t* w, size_t nw, uint8_t* r, size_t nr, TickType_t ticks);
esp_err_t i2c_master_stop(i2c_cmd_handle_t h);
esp_err_t i2c_master_cmd_begin(i2c_port_t port, i2c_cmd_handle_t h, TickType_t ticks);
}
