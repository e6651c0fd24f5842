// HardwareSerial on the simulated UART, and the clock.
#pragma once
#include "HardwareSerial.h"
#include "../uart_world.h"

HardwareSerial Serial(0);

Ticks millis() { world::touch(); return { (uint32_t)(world::clock() / 1000) }; }
Ticks micros() { world::touch(); return { (uint32_t)world::clock() }; }
void delay(uint32_t ms) { world::touch(); world::advance(ms * 1000ull); }
void delayMicroseconds(uint32_t us) { world::touch(); world::advance(us); }
void yield() { world::touch(); }

bool HardwareSerial::here() const
{
    if (number == uart::port) return true;
    drv::Ev("WrongPort").num("port", number).emit();
    return false;
}
int HardwareSerial::available() { world::touch(); return here() ? uart::buffered() : 0; }
int HardwareSerial::availableForWrite() { return 128; }
int HardwareSerial::peek() { world::touch(); return here() && uart::available() ? uart::arrivals.front().second : -1; }
int HardwareSerial::read() { world::touch(); return here() && uart::available() ? uart::take() : -1; }
size_t HardwareSerial::read(uint8_t* buffer, size_t size)
{
    world::touch();
    size_t n = 0;
    while (n < size && here() && uart::available()) buffer[n++] = uart::take();
    return n;
}
size_t HardwareSerial::write(uint8_t b) { return write(&b, 1); }
size_t HardwareSerial::write(const uint8_t* d, size_t n)
{
    world::touch();
    auto k = uart::send(d, n, number);
    return k > 0 ? k : 0;
}
void HardwareSerial::flush(bool txOnly)
{
    world::touch();
    uart::drained(number);
    if (!txOnly) uart::drop(number);
}
void HardwareSerial::setTimeout(unsigned long ms) { if (here()) uart::deviceTimeout = (uint32_t)ms; }
unsigned long HardwareSerial::getTimeout() { return here() ? (uint32_t)uart::deviceTimeout : 0; }
int HardwareSerial::timedRead()
{
    const Ticks start = millis();
    do
    {
        int c = read();
        if (c >= 0) return c;
        // nothing can come before the next arrival: let most of that time pass at once
        uint64_t next = uart::arrivals.empty() ? ~0ull : uart::arrivals.front().first;
        uint64_t left = (uint64_t)uart::deviceTimeout * 1000;
        uint64_t gone = (uint64_t)(millis() - start).v * 1000;
        uint64_t step = gone < left ? left - gone : 0;
        if (next > world::us && next - world::us < step) step = next - world::us;
        if (step > 3000) world::advance(step - 2000);
    } while (millis() - start < (uint32_t)uart::deviceTimeout);
    return -1;
}
size_t HardwareSerial::readBytes(char* buffer, size_t length)
{
    size_t n = 0;
    while (n < length)
    {
        int c = timedRead();
        if (c < 0) break;
        buffer[n++] = (char)c;
    }
    return n;
}
size_t HardwareSerial::readBytesUntil(char terminator, char* buffer, size_t length)
{
    size_t n = 0;
    while (n < length)
    {
        int c = timedRead();
        if (c < 0 || (char)c == terminator) break;
        buffer[n++] = (char)c;
    }
    return n;
}
