#pragma once
#include "FreeRTOS.h"
extern "C" void vTaskDelay(TickType_t ticks);
extern "C" TickType_t xTaskGetTickCount();
extern "C" void vPortYield();
#define taskYIELD() vPortYield()
