#pragma once
#include "Arduino.h"

#define LSBFIRST 0
#define MSBFIRST 1
#define SPI_MODE0 0
#define SPI_MODE1 1
#define SPI_MODE2 2
#define SPI_MODE3 3

class SPISettings
{
public:
    SPISettings() : _clock(1000000), _bitOrder(MSBFIRST), _dataMode(SPI_MODE0) {}
    SPISettings(uint32_t clock, uint8_t bitOrder, uint8_t dataMode) : _clock(clock), _bitOrder(bitOrder), _dataMode(dataMode) {}
    uint32_t _clock;
    uint8_t _bitOrder;
    uint8_t _dataMode;
};

class SPIClass
{
public:
    void beginTransaction(SPISettings settings);
    void endTransaction();
    uint8_t transfer(uint8_t data);
    void transfer(void* data, uint32_t size) { transferBytes((const uint8_t*)data, (uint8_t*)data, size); }
    void transferBytes(const uint8_t* data, uint8_t* out, uint32_t size);
    void transferBytes(uint8_t* data, uint8_t* out, uint32_t size) { transferBytes((const uint8_t*)data, out, size); }
    void transferBytes(std::nullptr_t, uint8_t* out, uint32_t size) { transferBytes((const uint8_t*)nullptr, out, size); }
    void write(uint8_t data) { transfer(data); }
    void writeBytes(const uint8_t* data, uint32_t size) { transferBytes(data, nullptr, size); }
};
extern SPIClass SPI;
