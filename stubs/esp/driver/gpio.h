#pragma once
#include "../esp_err.h"
typedef int gpio_num_t;
typedef enum { GPIO_MODE_DISABLE = 0, GPIO_MODE_INPUT = 1, GPIO_MODE_OUTPUT = 2, GPIO_MODE_OUTPUT_OD = 6, GPIO_MODE_INPUT_OUTPUT_OD = 7, GPIO_MODE_INPUT_OUTPUT = 3 } gpio_mode_t;
typedef enum { GPIO_PULLUP_DISABLE = 0, GPIO_PULLUP_ENABLE = 1 } gpio_pullup_t;
typedef enum { GPIO_PULLDOWN_DISABLE = 0, GPIO_PULLDOWN_ENABLE = 1 } gpio_pulldown_t;
typedef enum { GPIO_INTR_DISABLE = 0 } gpio_int_type_t;
#define GPIO_IS_VALID_OUTPUT_GPIO(n) ((n) < 34 && GPIO_IS_VALID_GPIO(n))
#define GPIO_IS_VALID_GPIO(n) ((n) < 40 && (((1ULL << (n)) & 0xFF0EFFFFFFULL) != 0))
struct gpio_config_t { uint64_t pin_bit_mask; gpio_mode_t mode; gpio_pullup_t pull_up_en; gpio_pulldown_t pull_down_en; gpio_int_type_t intr_type; };
extern "C" {
esp_err_t gpio_config(const gpio_config_t* c);
esp_err_t gpio_set_level(gpio_num_t n, uint32_t level);
esp_err_t gpio_reset_pin(gpio_num_t n);
esp_err_t gpio_set_direction(gpio_num_t n, gpio_mode_t mode);
int gpio_get_level(gpio_num_t n);
}
