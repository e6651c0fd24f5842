// Stand-in for the Arduino core (ESP32 flavour). On the target `unsigned long` has 32 bits; Ticks keeps clock
// arithmetic at 32 bits on the host.
#pragma once
#include <array>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <string>
#include <type_traits>

struct Ticks
{
    uint32_t v;
    template<class T, std::enable_if_t<std::is_arithmetic_v<T>, int> = 0>
    constexpr operator T() const
    {
        if constexpr (std::is_same_v<T, bool>) return v != 0;
        else if constexpr (std::is_signed_v<T> && sizeof(T) >= 4 && std::is_integral_v<T> && !std::is_same_v<T, long long>) return (T)(int32_t)v;
        else return (T)v;
    }
    Ticks &operator+=(uint32_t d) { v += d; return *this; }
    Ticks &operator-=(uint32_t d) { v -= d; return *this; }
};
template<class T> using Arith = std::enable_if_t<std::is_arithmetic_v<T>, int>;
#define TICK_OP(op) \
    constexpr Ticks operator op(Ticks a, Ticks b) { return { a.v op b.v }; } \
    template<class T, Arith<T> = 0> constexpr Ticks operator op(Ticks a, T b) { return { a.v op (uint32_t)b }; } \
    template<class T, Arith<T> = 0> constexpr Ticks operator op(T a, Ticks b) { return { (uint32_t)a op b.v }; }
TICK_OP(+) TICK_OP(-) TICK_OP(*) TICK_OP(/) TICK_OP(%)
#undef TICK_OP
#define TICK_CMP(op) \
    constexpr bool operator op(Ticks a, Ticks b) { return a.v op b.v; } \
    template<class T, Arith<T> = 0> constexpr bool operator op(Ticks a, T b) { return a.v op (uint32_t)b; } \
    template<class T, Arith<T> = 0> constexpr bool operator op(T a, Ticks b) { return (uint32_t)a op b.v; }
TICK_CMP(<) TICK_CMP(<=) TICK_CMP(>) TICK_CMP(>=) TICK_CMP(==) TICK_CMP(!=)
#undef TICK_CMP

using byte = uint8_t;
#define LOW 0x0
#define HIGH 0x1
#define INPUT 0x01
#define OUTPUT 0x03
#define PULLUP 0x04
#define INPUT_PULLUP 0x05
#define PULLDOWN 0x08
#define INPUT_PULLDOWN 0x09
#define OPEN_DRAIN 0x10
#define OUTPUT_OPEN_DRAIN 0x13
#define ANALOG 0xC0

Ticks millis();
Ticks micros();
void delay(uint32_t ms);
void delayMicroseconds(uint32_t us);
void yield();
void pinMode(uint8_t pin, uint8_t mode);
void digitalWrite(uint8_t pin, uint8_t val);
int digitalRead(uint8_t pin);
uint16_t analogRead(uint8_t pin);
uint32_t analogReadMilliVolts(uint8_t pin);
void analogReadResolution(uint8_t bits);

#include "HardwareSerial.h"
