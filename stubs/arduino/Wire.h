#pragma once
#include "Arduino.h"
class TwoWire
{
public:
    void beginTransmission(uint16_t address);
    size_t write(uint8_t b);
    size_t write(const uint8_t* data, size_t n);
    uint8_t endTransmission();
    uint8_t endTransmission(bool stop);
    size_t requestFrom(int address, int count);
    int available();
    int read();
    int peek();
    size_t readBytes(uint8_t* buffer, size_t length);
    int nr;
};
