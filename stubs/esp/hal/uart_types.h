#pragma once
#include <cstdint>
typedef int uart_port_t;
typedef enum { UART_DATA_5_BITS = 0, UART_DATA_6_BITS = 1, UART_DATA_7_BITS = 2, UART_DATA_8_BITS = 3 } uart_word_length_t;
typedef enum { UART_STOP_BITS_1 = 1, UART_STOP_BITS_1_5 = 2, UART_STOP_BITS_2 = 3 } uart_stop_bits_t;
typedef enum { UART_PARITY_DISABLE = 0, UART_PARITY_EVEN = 2, UART_PARITY_ODD = 3 } uart_parity_t;
typedef enum { UART_HW_FLOWCTRL_DISABLE = 0, UART_HW_FLOWCTRL_RTS = 1, UART_HW_FLOWCTRL_CTS = 2, UART_HW_FLOWCTRL_CTS_RTS = 3 } uart_hw_flowcontrol_t;
typedef enum { UART_SCLK_APB = 0 } uart_sclk_t;
struct uart_config_t
{
    int baud_rate;
    uart_word_length_t data_bits;
    uart_parity_t parity;
    uart_stop_bits_t stop_bits;
    uart_hw_flowcontrol_t flow_ctrl;
    uint8_t rx_flow_ctrl_thresh;
    uart_sclk_t source_clk;
    struct { uint32_t x; } flags;
};
