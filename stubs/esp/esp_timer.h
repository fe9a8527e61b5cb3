#pragma once
#include <cstdint>
extern "C" int64_t esp_timer_get_time();
