// Drives SerialOut of one platform; what it sends appears as Wire events.
//   N cap           a SerialOut over an exact heap buffer of cap characters
//   M               the program-wide SerialDebug object instead
//   z hex | b code | i type digits | f neg ip r k | p n | B hex    insertions
//   E | L           end, endl
//   D hex type n    DEBUG_LOG(string << number)
#define DEBUG_SERIAL_OUT
#include "drv.h"
#include "PacketUart.h"
#include "Debug.h"
#include <algorithm>
#include <cmath>
#include <memory>
#include <optional>
#ifdef MBV_ARDUINO
#include "mock/arduino/uart_impl.h"
#include "arduino/PacketUartImpl.h"
static embedded::PacketUart::UartDevice device[] = { embedded::PacketUart::UartDevice(1), embedded::PacketUart::UartDevice(2), embedded::PacketUart::UartDevice(3) };
#else
#include "mock/esp32/uart_impl.h"
#include "esp32-esp-idf/PacketUartImpl.h"
static embedded::PacketUart::UartDevice device[] = { embedded::PacketUart::UartDevice(1), embedded::PacketUart::UartDevice(2), embedded::PacketUart::UartDevice(3) };
#endif
using embedded::SerialOut;
static embedded::PacketUart uarts[] = { embedded::PacketUart(device[0]), embedded::PacketUart(device[1]), embedded::PacketUart(device[2]) }; // one for each lane
static std::unique_ptr<char[]> buf;
static std::unique_ptr<SerialOut> own;
static SerialOut* o;

template<class F> static void number(const std::string &ty, const std::string &d, F f)
{
    if (ty == "int") f((int)std::stoll(d));
    else if (ty == "uint") f((unsigned)std::stoull(d));
    else if (ty == "long") f((long)std::stoll(d));
    else if (ty == "ulong") f((unsigned long)std::stoull(d));
    else if (ty == "llong") f((long long)std::stoll(d));
    else if (ty == "ullong") f((unsigned long long)std::stoull(d));
    else if (ty == "schar") f((signed char)std::stoll(d));
    else if (ty == "bool") f(d == "1");
    else if (ty == "short") f((short)std::stoll(d));
    else if (ty == "ushort") f((unsigned short)std::stoll(d));
    else _exit(99);
}

int main(int argc, char** argv)
{
    drv::lanes(buf, own, o, uart::port, uart::label, uart::pending, uart::accept);
    return drv::run(argc, argv, [] { world::start(0); uart::reset(); own.reset(); o = nullptr; },
        [](const std::string &c, drv::Tokens &t)
        {
            using drv::Ev;
            if (c == "N" || c == "M")
            {
                size_t cap = c == "N" ? t.num() : 128;
                Ev("New").num("cap", cap).num("port", c == "N" ? drv::lane + 1 : 0).emit();
                if (c == "M") { uart::port = uart::label = 0; o = &embedded::SerialDebug; return; }
                uart::port = uart::label = drv::lane + 1;
                buf.reset(new char[cap]);
                memset(buf.get(), 0xEE, cap);
                own = std::make_unique<SerialOut>(embedded::MemoryView<char>(buf.get(), cap), uarts[drv::lane]);
                o = &*own;
                return;
            }
            Ev e("Call");
            SerialOut &out = *o;
            const SerialOut* ret = &out;
            if (c == "z" || c == "B")
            {
                auto s = t.hex();
                auto p = std::make_unique<char[]>(s.size() + (c == "z"));
                memcpy(p.get(), s.data(), s.size() + (c == "z"));
                e.str("op", c == "B" ? "bytes" : "str").bytes("s", s).emit();
                if (c == "z") ret = &(out << (const char*)p.get());
                else ret = &(out << embedded::ConstBytesView((const uint8_t*)p.get(), s.size()));
            }
            else if (c == "b") { int k = t.num(); e.str("op", "byte").num("c", k).emit(); ret = &(out << (unsigned char)k); }
            else if (c == "i")
            {
                auto ty = t.str(), d = t.str();
                e.str("op", "int").bytes("s", d).emit();
                number(ty, d, [&](auto n) { ret = &(out << n); });
            }
            else if (c == "f")
            {
                bool g = t.num(); auto ip = t.str(); long long r = t.num(); int k = t.num();
                double d = std::stod(ip) + std::ldexp((double)r, -k);
                float f = (float)(g ? -d : d);
                if ((double)f != (g ? -d : d)) _exit(99);
                e.str("op", "float").boolean("g", g).bytes("s", ip).num("r", r).num("k", k).emit();
                ret = &(out << f);
            }
            else if (c == "p") { int w = t.num(); e.str("op", "prec").num("c", w).emit(); ret = &(out << SerialOut::precision { w }); }
            else if (c == "E") { e.str("op", "end").emit(); ret = &(out << SerialOut::end {}); }
            else if (c == "L") { e.str("op", "endl").emit(); ret = &(out << SerialOut::endl {}); }
            else if (c == "D")
            {
                auto s = t.hex(), ty = t.str(), d = t.str();
                e.str("op", "log").bytes("s", s).bytes("n", d).emit();
                number(ty, d, [&](auto n) { DEBUG_LOG(s.c_str() << n) });
            }
            else _exit(99);
            Ev("Ret").boolean("same", ret == &out).boolean("sent", uart::pending == 0).emit();
        });
}
