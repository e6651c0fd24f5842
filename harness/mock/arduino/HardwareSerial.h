#pragma once
#include "Arduino.h"

// As Stream/HardwareSerial of the Arduino core, including the behaviour of readBytesUntil (the terminator is taken
// and not stored) and of time-outs (each byte is waited for anew).
class HardwareSerial
{
public:
    explicit HardwareSerial(int n = 0) : number(n) {}
    int available();
    int availableForWrite();
    int peek();
    int read();
    size_t read(uint8_t* buffer, size_t size);
    size_t write(uint8_t b);
    size_t write(const uint8_t* buffer, size_t size);
    size_t write(const char* buffer, size_t size) { return write((const uint8_t*)buffer, size); }
    void flush() { flush(true); }
    void flush(bool txOnly);
    void setTimeout(unsigned long ms);
    unsigned long getTimeout();
    size_t readBytes(char* buffer, size_t length);
    size_t readBytes(uint8_t* buffer, size_t length) { return readBytes((char*)buffer, length); }
    size_t readBytesUntil(char terminator, char* buffer, size_t length);
    size_t readBytesUntil(char terminator, uint8_t* buffer, size_t length) { return readBytesUntil(terminator, (char*)buffer, length); }
    operator bool() const { return true; }

protected:
    int number;
    bool here() const;      // is this the UART the commands are about?
    int timedRead();
};
extern HardwareSerial Serial;
