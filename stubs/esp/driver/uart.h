#pragma once
#include "../esp_err.h"
#include "../freertos/FreeRTOS.h"
#include "../hal/uart_types.h"
#define UART_PIN_NO_CHANGE (-1)
#define UART_HW_FIFO_LEN(n) 128
extern "C" {
bool uart_is_driver_installed(uart_port_t n);
esp_err_t uart_param_config(uart_port_t n, const uart_config_t* c);
esp_err_t uart_set_pin(uart_port_t n, int tx, int rx, int rts, int cts);
esp_err_t uart_driver_install(uart_port_t n, int rx, int tx, int queue, void* q, int flags);
int uart_write_bytes(uart_port_t n, const void* src, size_t size);
esp_err_t uart_wait_tx_done(uart_port_t n, TickType_t ticks);
esp_err_t uart_driver_delete(uart_port_t n);
esp_err_t uart_get_buffered_data_len(uart_port_t n, size_t* size);
esp_err_t uart_flush(uart_port_t n);
esp_err_t uart_flush_input(uart_port_t n);
int uart_tx_chars(uart_port_t n, const char* buffer, uint32_t len);
int uart_read_bytes(uart_port_t n, void* buf, uint32_t size, TickType_t ticks);
}
