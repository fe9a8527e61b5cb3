#pragma once
#include "Arduino.h"
class HardwareSerial
{
public:
    explicit HardwareSerial(int uart) : nr(uart) {}
    unsigned long getTimeout();
    void setTimeout(unsigned long timeout);
    int available();
    int peek();
    int read();
    size_t readBytes(uint8_t* buffer, size_t length);
    size_t readBytesUntil(char terminator, uint8_t* buffer, size_t length);
    size_t read(uint8_t* buffer, size_t size);
    size_t write(uint8_t b);
    size_t write(const uint8_t* buffer, size_t size);
    void flush();
    void flush(bool txOnly);
protected:
    int nr;
};
