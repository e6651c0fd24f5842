// Drives PacketUart of one platform on the simulated UART.
//   N wrap jit seed stall_at stall devtimeout   a new world; the millisecond clock wraps `wrap` microseconds from now
//   A t byte t byte ...   bytes arriving t microseconds after now
//   E n n ...             the read calls (counted from now) that fail (ESP32)
//   W k                   what the next write accepts (-1: error, -2: everything)
//   D ms                  sets the device's own timeout (Arduino)
//   R size timeout | U size end timeout | B size start end timeout | S hex timeout | S0 hex (default timeout)
//   Q size timeout | Q0 size | V hex      the UART device itself (ESP32; elsewhere as R and S)
//   M                     bytes that are no delimiter become one event if taken one after the other
//   G us                  lets time pass
#include "drv.h"
#include "PacketUart.h"
#include <algorithm>
#ifdef MBV_ARDUINO
#include "mock/arduino/uart_impl.h"
#include "arduino/PacketUartImpl.h"
static embedded::PacketUart::UartDevice device[] = { embedded::PacketUart::UartDevice(1), embedded::PacketUart::UartDevice(2), embedded::PacketUart::UartDevice(3) };
#else
#include "mock/esp32/uart_impl.h"
#include "esp32-esp-idf/PacketUartImpl.h"
static embedded::PacketUart::UartDevice device[] = { embedded::PacketUart::UartDevice(1), embedded::PacketUart::UartDevice(2), embedded::PacketUart::UartDevice(3) };
#endif
#include <memory>

static embedded::PacketUart uarts[] = { embedded::PacketUart(device[0]), embedded::PacketUart(device[1]), embedded::PacketUart(device[2]) }; // one for each lane
static long slack;

int main(int argc, char** argv)
{
    drv::lanes(uart::arrivals, uart::readErrors, uart::reads, uart::accept, uart::deviceTimeout, uart::port, uart::pending, uart::merge, uart::delims,
               uart::run, uart::runEnd, world::us, world::base, world::seed, world::jitter, world::readings, world::stallAt, world::stall, slack);
    return drv::run(argc, argv, [] { world::start(0); uart::reset(); uart::port = drv::lane + 1; },
        [](const std::string &c, drv::Tokens &t)
        {
            using drv::Ev;
            auto &pu = uarts[drv::lane];
            if (c == "N")
            {
                const uint64_t W = (1ull << 32) * 1000;
                long long wrap = t.num();
                world::start(wrap < 0 ? (uint64_t)-wrap : W - wrap);
                world::jitter = t.num(); world::seed = t.num(); world::stallAt = t.num(); world::stall = t.num();
                uart::reset(); uart::deviceTimeout = t.num();
                slack = world::stall + 12 * world::jitter;
#ifdef MBV_ARDUINO
                Ev("New").str("plat", "arduino").num("tick", 1).emit();
#else
                Ev("New").str("plat", "esp32").num("tick", MOCK_TICK_MS).emit();
#endif
                return;
            }
            if (c == "A") { while (t.more()) { long long at = t.num(); uart::arrivals.emplace_back(world::us + at, t.num()); } std::stable_sort(uart::arrivals.begin(), uart::arrivals.end(), [](auto &a, auto &b) { return a.first < b.first; }); return; }
            if (c == "E") { uart::reads = 0; uart::readErrors.clear(); while (t.more()) uart::readErrors.insert(t.num()); return; }
            if (c == "M") { uart::merge = true; return; }
            if (c == "W") { uart::accept = t.num(); return; }
            if (c == "D") { uart::deviceTimeout = t.num(); return; }
            if (c == "G") { world::advance(t.num()); return; }
            Ev e("Call");
#ifndef MBV_ARDUINO
            if (c[0] == 'Q' || c == "V")
            {
                auto &dev = device[drv::lane];
                if (c == "V")
                {
                    auto d = t.hex();
                    drv::Block p(d);
                    e.str("op", "send").boolean("dev", true).bytes("data", d).num("devto", uart::deviceTimeout).emit();
                    long long r = dev.sendBlocking(p.get(), d.size());
                    Ev("Ret").num("res", r).num("devto", uart::deviceTimeout).boolean("sent", uart::pending == 0).boolean("same", !memcmp(p.get(), d.data(), d.size())).emit();
                    uart::pending = 0;
                    return;
                }
                size_t n = t.num();
                long long to = c == "Q" ? t.num() : 20;
                drv::Block b(n, n);
                std::fill(b.get(), b.get() + n, 0xA5);
                uart::delims[0] = uart::delims[1] = -1;
                e.str("op", "receive").boolean("dev", true).num("size", n).num("s", 0).num("e", 0).num("to", to).num("t", world::us).num("slack", slack).num("devto", uart::deviceTimeout).emit();
                long long r = c == "Q" ? dev.receiveBlocking(b.get(), n, to) : dev.receiveBlocking(b.get(), n);
                Ev("Ret").num("res", r).bytes("buf", b.get(), std::clamp<long long>(r, 0, n)).num("t", world::us).num("devto", uart::deviceTimeout)
                    .num("next", uart::available() ? (long long)uart::arrivals.front().first : -1).emit();
                return;
            }
#endif
            const bool send = c == "S" || c == "S0" || c == "V";
            if (send)
            {
                auto d = t.hex();
                drv::Block p(d);
                long to = c == "S" ? t.num() : 100;
                e.str("op", "send").boolean("dev", false).bytes("data", d).num("devto", uart::deviceTimeout).emit();
                int r = c == "S" ? pu.Send(p.get(), d.size(), to) : pu.Send(p.get(), d.size());
                Ev("Ret").num("res", r).num("devto", uart::deviceTimeout).boolean("sent", uart::pending == 0).boolean("same", !memcmp(p.get(), d.data(), d.size())).emit();
                uart::pending = 0;
                return;
            }
            size_t n = t.num();
            drv::Block b(n, n);
            std::fill(b.get(), b.get() + n, 0xA5);
            const bool plain = c == "R" || c[0] == 'Q';
            int s = c == "B" ? t.num() : 0, end = plain ? 0 : t.num(), to = c == "Q0" ? 20 : std::min(65535ll, t.num());
            uart::delims[0] = c == "B" ? s : -1; uart::delims[1] = plain ? -1 : end;
            e.str("op", plain ? "receive" : c == "U" ? "until" : "between").boolean("dev", false).num("size", n).num("s", s).num("e", end).num("to", to)
                .num("t", world::us).num("slack", slack).num("devto", uart::deviceTimeout).emit();
            int r = plain ? (to == 200 ? pu.Receive(b.get(), n) : pu.Receive(b.get(), n, to)) : c == "U" ? pu.ReceiveUntil(b.get(), n, end, to) : pu.ReceiveBetween(b.get(), n, s, end, to);
            Ev("Ret").num("res", r).bytes("buf", b.get(), std::min<size_t>(r, n)).num("t", world::us).num("devto", uart::deviceTimeout)
                .num("next", uart::available() ? (long long)uart::arrivals.front().first : -1).emit();
        });
}
