#pragma once
#include <cstddef>
#include <cstdint>
typedef uint32_t TickType_t;
typedef int BaseType_t;
typedef unsigned int UBaseType_t;
#define configTICK_RATE_HZ 100
#define pdTRUE 1
#define pdFALSE 0
#define pdMS_TO_TICKS(ms) ((TickType_t)(((uint64_t)(ms) * configTICK_RATE_HZ) / 1000))
#define portTICK_PERIOD_MS ((TickType_t)10)
#define portMAX_DELAY ((TickType_t)0xffffffffUL)
