#pragma once
#include "Arduino.h"

class TwoWire
{
public:
    void beginTransmission(uint16_t address);
    void beginTransmission(uint8_t address) { beginTransmission((uint16_t)address); }
    void beginTransmission(int address) { beginTransmission((uint16_t)address); }
    uint8_t endTransmission(bool sendStop);
    uint8_t endTransmission() { return endTransmission(true); }
    size_t requestFrom(uint16_t address, size_t size, bool sendStop);
    size_t requestFrom(uint16_t address, uint8_t size, bool sendStop) { return requestFrom(address, (size_t)size, sendStop); }
    size_t requestFrom(uint16_t address, uint8_t size) { return requestFrom(address, (size_t)size, true); }
    size_t requestFrom(uint8_t address, uint8_t size) { return requestFrom((uint16_t)address, (size_t)size, true); }
    size_t requestFrom(int address, int size) { return requestFrom((uint16_t)address, (size_t)size, true); }
    size_t requestFrom(int address, int size, int sendStop) { return requestFrom((uint16_t)address, (size_t)size, sendStop != 0); }
    size_t write(uint8_t data);
    size_t write(const uint8_t* data, size_t size);
    size_t write(const char* s) { return write((const uint8_t*)s, strlen(s)); }
    size_t write(int n) { return write((uint8_t)n); }
    size_t write(unsigned int n) { return write((uint8_t)n); }
    int available();
    int read();
    int peek();
    size_t readBytes(uint8_t* buffer, size_t length);
    size_t readBytes(char* buffer, size_t length) { return readBytes((uint8_t*)buffer, length); }
    void flush() {}
    void setTimeOut(uint16_t) {}
};
extern TwoWire Wire;
