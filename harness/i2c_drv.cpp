// Drives I2CDevice and I2CBus of one platform on a simulated bus.
//   N port addr timeout     a bus (ESP32: on that port) and a device
//   F ack n room            outcome of the next bus operations: acknowledged (1/0), bytes the device gives (-1: all asked
//                           for), bytes the driver's buffer accepts (-1: all)   [queued; used one per operation]
//   Z seed                  what the device sends
//   s hex | g n | b hex n   send, receive, send then receive
//   r                       bus reset
//   p addr | i sda scl freq pu pc    ESP32: probe an address, initialise the bus
#include "drv.h"
#include "I2CDevice.h"
#include <deque>
#include <memory>
#include <optional>
using drv::Ev;

static uint32_t seed = 1;
static uint8_t next_byte() { seed = seed * 1664525u + 1013904223u; return seed >> 24; }
struct Outcome { bool ack = true; long n = -1, room = -1; };
static std::deque<Outcome> outcomes;
static Outcome outcome() { Outcome o; if (!outcomes.empty()) { o = outcomes.front(); outcomes.pop_front(); } return o; }
static int links = 0;

#ifdef MBV_ARDUINO
#include "arduino/I2CBus.h"
TwoWire Wire;
static int address = -1;
static Outcome current;
static std::string given, accepted, received;
static size_t taken;
void TwoWire::beginTransmission(uint16_t a) { address = a; given.clear(); accepted.clear(); current = outcome(); }
size_t TwoWire::write(uint8_t d) { return write(&d, 1); }
size_t TwoWire::write(const uint8_t* d, size_t n)
{
    if (address < 0) return 0;
    given.append((const char*)d, n);
    size_t k = current.room < 0 ? n : std::min<size_t>(n, current.room - std::min<size_t>(current.room, accepted.size()));
    accepted.append((const char*)d, k);
    return k;
}
uint8_t TwoWire::endTransmission(bool stop)
{
    if (address < 0) { Ev("Stray").emit(); return 4; }
    Ev("Send").num("addr", address).bytes("data", given).num("accepted", accepted.size()).boolean("ack", current.ack).boolean("stop", stop).emit();
    address = -1;
    return current.ack ? 0 : 2;
}
size_t TwoWire::requestFrom(uint16_t a, size_t n, bool stop)
{
    auto o = outcome();
    size_t k = !o.ack ? 0 : o.n < 0 ? n : std::min<size_t>(n, o.n);
    received.clear(); taken = 0;
    for (size_t i = 0; i < k; ++i) received.push_back((char)next_byte());
    Ev("Req").num("addr", a).num("n", n).boolean("stop", stop).bytes("data", received).emit();
    return k;
}
int TwoWire::available() { return received.size() - taken; }
int TwoWire::read() { return taken < received.size() ? (uint8_t)received[taken++] : -1; }
int TwoWire::peek() { return taken < received.size() ? (uint8_t)received[taken] : -1; }
size_t TwoWire::readBytes(uint8_t* b, size_t n) { size_t i = 0; while (i < n && taken < received.size()) b[i++] = received[taken++]; return i; }
#else
#include "esp32-esp-idf/I2CBus.h"
#include "driver/i2c.h"
void mock_error_check_failed(esp_err_t) { Ev("Abort").emit(); _exit(3); }
esp_err_t i2c_master_write_to_device(i2c_port_t p, uint8_t a, const uint8_t* d, size_t n, TickType_t ticks)
{
    auto o = outcome();
    Ev("Send").num("addr", a).bytes("data", d, n).num("accepted", n).boolean("ack", o.ack).boolean("stop", true).num("port", p).num("wait", (long long)ticks * MOCK_TICK_MS).emit();
    return o.ack ? ESP_OK : ESP_FAIL;
}
static std::string answer(const Outcome &o, size_t n)
{
    std::string r;
    size_t k = !o.ack ? 0 : o.n < 0 ? n : std::min<size_t>(n, o.n);
    for (size_t i = 0; i < k; ++i) r.push_back((char)next_byte());
    return r;
}
esp_err_t i2c_master_read_from_device(i2c_port_t p, uint8_t a, uint8_t* d, size_t n, TickType_t ticks)
{
    auto r = answer(outcome(), n);
    memcpy(d, r.data(), r.size());
    Ev("Req").num("addr", a).num("n", n).boolean("stop", true).bytes("data", r).num("port", p).num("wait", (long long)ticks * MOCK_TICK_MS).emit();
    return r.size() == n ? ESP_OK : ESP_ERR_TIMEOUT;
}
esp_err_t i2c_master_write_read_device(i2c_port_t p, uint8_t a, const uint8_t* w, size_t wn, uint8_t* r, size_t rn, TickType_t ticks)
{
    auto e = i2c_master_write_to_device(p, a, w, wn, ticks);
    return e == ESP_OK ? i2c_master_read_from_device(p, a, r, rn, ticks) : e;
}
struct Link { int starts = 0, stops = 0; std::string bytes; bool check = true, reads = false; };
i2c_cmd_handle_t i2c_cmd_link_create() { ++links; return new Link; }
void i2c_cmd_link_delete(i2c_cmd_handle_t h) { --links; delete (Link*)h; }
esp_err_t i2c_master_start(i2c_cmd_handle_t h) { ((Link*)h)->starts++; return ESP_OK; }
esp_err_t i2c_master_stop(i2c_cmd_handle_t h) { ((Link*)h)->stops++; return ESP_OK; }
esp_err_t i2c_master_write_byte(i2c_cmd_handle_t h, uint8_t d, bool ack) { auto l = (Link*)h; l->bytes.push_back((char)d); l->check = l->check && ack; return ESP_OK; }
esp_err_t i2c_master_write(i2c_cmd_handle_t h, const uint8_t* d, size_t n, bool ack) { for (size_t i = 0; i < n; ++i) i2c_master_write_byte(h, d[i], ack); return ESP_OK; }
esp_err_t i2c_master_read_byte(i2c_cmd_handle_t h, uint8_t*, i2c_ack_type_t) { ((Link*)h)->reads = true; return ESP_OK; }
esp_err_t i2c_master_read(i2c_cmd_handle_t h, uint8_t*, size_t, i2c_ack_type_t) { ((Link*)h)->reads = true; return ESP_OK; }
esp_err_t i2c_master_cmd_begin(i2c_port_t p, i2c_cmd_handle_t h, TickType_t)
{
    auto o = outcome();
    auto l = (Link*)h;
    Ev("Probe").num("port", p).num("starts", l->starts).num("stops", l->stops).boolean("check", l->check).boolean("reads", l->reads).bytes("data", l->bytes).boolean("ack", o.ack).emit();
    return o.ack ? ESP_OK : ESP_FAIL;
}
esp_err_t i2c_param_config(i2c_port_t p, const i2c_config_t* c)
{
    auto o = outcome();
    Ev("Config").num("port", p).boolean("ok", o.ack).boolean("master", c->mode == I2C_MODE_MASTER).num("sda", c->sda_io_num).num("scl", c->scl_io_num)
        .boolean("pu", c->sda_pullup_en).boolean("pc", c->scl_pullup_en).num("freq", c->master.clk_speed).emit();
    return o.ack ? ESP_OK : ESP_ERR_INVALID_ARG;
}
esp_err_t i2c_driver_install(i2c_port_t p, i2c_mode_t m, size_t, size_t, int)
{
    auto o = outcome();
    Ev("Install").num("port", p).boolean("ok", o.ack).boolean("master", m == I2C_MODE_MASTER).emit();
    return o.ack ? ESP_OK : ESP_FAIL;
}
esp_err_t i2c_driver_delete(i2c_port_t) { return ESP_OK; }
#endif

static std::unique_ptr<embedded::I2CBus> bus;
static std::unique_ptr<embedded::I2CDevice> dev;

int main(int argc, char** argv)
{
    drv::lanes(seed, outcomes, links, bus, dev);
    return drv::run(argc, argv, [] { dev.reset(); bus.reset(); outcomes.clear(); seed = 1; links = 0; },
        [](const std::string &c, drv::Tokens &t)
        {
            if (c == "N")
            {
                int port = t.num(), a = t.num(); long to = t.num();
                Ev("New").num("port", port).num("addr", a).num("to", to < 0 ? 200 : to).emit();
#ifdef MBV_ARDUINO
                bus = std::make_unique<embedded::I2CBus>(Wire);
#else
                bus = std::make_unique<embedded::I2CBus>(port);
#endif
                if (to < 0) dev = std::make_unique<embedded::I2CDevice>(*bus, a); else dev = std::make_unique<embedded::I2CDevice>(*bus, a, to);
                return;
            }
            if (c == "F") { Outcome o; o.ack = t.num(); o.n = t.num(); o.room = t.num(); outcomes.push_back(o); return; }
            if (c == "Z") { seed = t.num(); return; }
            Ev e("Call");
            if (c == "s" || c == "g" || c == "b")
            {
                std::string d = c == "g" ? "" : t.hex();
                size_t n = c == "s" ? 0 : t.num();
                drv::Block tx(d), rx(n, n + d.size());
                memset(rx.get(), 0xA5, n);
                e.str("op", c == "s" ? "send" : c == "g" ? "receive" : "both").bytes("data", d).num("n", n).emit();
                bool r = c == "s" ? dev->sendSync(tx.get(), d.size()) : c == "g" ? dev->receiveSync(rx.get(), n) : dev->sendThenReceive(tx.get(), d.size(), rx.get(), n);
                Ev("Ret").boolean("res", r).bytes("buf", rx.get(), n).boolean("same", !memcmp(tx.get(), d.data(), d.size())).num("links", links).emit();
                outcomes.clear();
                return;
            }
            bool r = true;
            if (c == "r") { e.str("op", "reset").emit(); bus->resetBus(); }
#ifndef MBV_ARDUINO
            else if (c == "p") { int a = t.num(); e.str("op", "probe").num("addr", a).emit(); r = bus->testAddress(a); }
            else if (c == "i")
            {
                int sda = t.num(), scl = t.num(); long f = t.num(); int pu = t.num(), pc = t.num();
                e.str("op", "init").num("sda", sda).num("scl", scl).num("freq", f).boolean("pu", pu != 0).boolean("pc", pc != 0).emit();
                r = pu == 1 && pc == 1 ? bus->init(sda, scl, f) : bus->init(sda, scl, f, pu, pc);
            }
#endif
            else _exit(99);
            Ev("Ret").boolean("res", r).raw("buf", "[]").boolean("same", true).num("links", links).emit();
            outcomes.clear();
        });
}
