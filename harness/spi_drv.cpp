// Drives SpiBus and SpiDevice of one platform on a simulated bus.
//   C o host             a new bus object number o (ESP32; on Arduino the only one is object 0)
//   I o sck miso mosi freq duplex | R o | D o    init (duplex h or f), release, destroy (ESP32)
//   F fn v v ...         outcomes of the next driver calls: fn i (initialize) a (add) r (remove) f (free) t (transfer);
//                        v 1 succeeds, 0 fails
//   s o hex | g o n | x o hex | y o hex    send, receive n bytes, exchange, exchange in place
//   b hex | w hex        Arduino: sendBytes, sendByte for each byte
//   Z seed               what the other side sends
#include "drv.h"
#include "SpiDevice.h"
#include <deque>
#include <map>
#include <memory>
using drv::Ev;

static uint32_t miso = 1;
static uint8_t next_miso() { miso = miso * 1664525u + 1013904223u; return miso >> 24; }
static std::map<char, std::deque<int>> outcome;
static bool fails(char fn)
{
    auto &q = outcome[fn];
    if (q.empty()) return false;
    int v = q.front(); q.pop_front();
    return v == 0;
}

#ifdef MBV_ARDUINO
#include "arduino/SpiBus.h"
SPIClass SPI;
void SPIClass::beginTransaction(SPISettings s) { Ev("Begin").num("clock", s._clock).num("order", s._bitOrder).num("mode", s._dataMode).emit(); }
void SPIClass::endTransaction() { Ev("End").emit(); }
uint8_t SPIClass::transfer(uint8_t d)
{
    uint8_t r = next_miso();
    Ev("Piece").boolean("legal", true).boolean("ok", true).num("n", 1).boolean("hastx", true).bytes("tx", &d, 1).boolean("hasrx", true).bytes("rx", &r, 1).emit();
    return r;
}
void SPIClass::transferBytes(const uint8_t* d, uint8_t* out, uint32_t n)
{
    std::string tx, rx;
    for (uint32_t i = 0; i < n; ++i)
    {
        tx.push_back(d ? d[i] : 0xFF);
        rx.push_back((char)next_miso());
        if (out) out[i] = rx.back();
    }
    Ev("Piece").boolean("legal", true).boolean("ok", true).num("n", n).boolean("hastx", d != nullptr).bytes("tx", tx).boolean("hasrx", true).bytes("rx", rx).emit();
}
#else
#include "esp32-esp-idf/SpiBus.h"
#include "esp32-esp-idf/GpioPinDefinition.h"
#include "driver/spi_master.h"

struct spi_device_t { int id; int host; bool live; bool half; };
static std::vector<std::unique_ptr<spi_device_t>> devices;
static std::map<int, int> hostMax;    // initialised hosts and their largest transfer
static esp_err_t res(bool ok) { return ok ? ESP_OK : ESP_ERR_INVALID_STATE; }

esp_err_t spi_bus_initialize(spi_host_device_t host, const spi_bus_config_t* c, spi_dma_chan_t dma)
{
    bool ok = !fails('i') && !hostMax.count(host);
    if (ok)
    {
        int sz = c->max_transfer_sz ? c->max_transfer_sz : LLDESC_MAX_NUM_PER_DESC;
        hostMax[host] = dma ? (sz + LLDESC_MAX_NUM_PER_DESC - 1) / LLDESC_MAX_NUM_PER_DESC * LLDESC_MAX_NUM_PER_DESC : 64;
    }
    Ev("BusInit").num("host", host).boolean("ok", ok).num("mosi", c->mosi_io_num).num("miso", c->miso_io_num).num("sck", c->sclk_io_num)
        .num("wp", c->quadwp_io_num).num("hd", c->quadhd_io_num).emit();
    return res(ok);
}
esp_err_t spi_bus_free(spi_host_device_t host)
{
    bool ok = !fails('f') && hostMax.count(host);
    for (auto &d : devices) ok = ok && !(d->live && d->host == host);
    if (ok) hostMax.erase(host);
    Ev("BusFree").num("host", host).boolean("ok", ok).emit();
    return res(ok);
}
esp_err_t spi_bus_add_device(spi_host_device_t host, const spi_device_interface_config_t* c, spi_device_handle_t* h)
{
    bool ok = !fails('a') && hostMax.count(host);
    int id = -1;
    if (ok)
    {
        id = devices.size();
        devices.push_back(std::make_unique<spi_device_t>(spi_device_t { id, host, true, (c->flags & SPI_DEVICE_HALFDUPLEX) != 0 }));
        *h = devices.back().get();
    }
    Ev("AddDev").num("host", host).boolean("ok", ok).num("id", id).num("freq", c->clock_speed_hz).num("mode", c->mode).num("cs", c->spics_io_num)
        .boolean("half", c->flags & SPI_DEVICE_HALFDUPLEX).boolean("plain", (c->flags & ~(uint32_t)SPI_DEVICE_HALFDUPLEX) == 0).boolean("queue", c->queue_size > 0).emit();
    return res(ok);
}
esp_err_t spi_bus_remove_device(spi_device_handle_t h)
{
    bool ok = !fails('r') && h;
    int id = h ? h->id : -1;
    bool live = h && h->live;
    if (ok) h->live = false;
    Ev("RemoveDev").num("id", id).boolean("live", live).boolean("ok", ok).emit();
    return res(ok);
}
esp_err_t spi_device_polling_transmit(spi_device_handle_t h, spi_transaction_t* t)
{
    if (!h) { Ev("Null").emit(); return ESP_ERR_INVALID_ARG; }
    const bool tx = t->tx_buffer, rx = t->rx_buffer;
    const size_t len = t->length / 8, max = hostMax.count(h->host) ? hostMax[h->host] : 0;
    size_t rxlen = t->rxlength / 8;
    // the rules of the ESP-IDF driver
    bool legal = t->length % 8 == 0 && t->rxlength % 8 == 0 && len <= max && rxlen <= max && t->flags == 0;
    if (!h->half)
    {
        legal = legal && rxlen <= len;
        if (rxlen == 0) rxlen = len;
    }
    else
        legal = legal && !(tx && rx);
    if (tx && len == 0 || rx && rxlen == 0 || !tx && !rx) legal = false;
    bool ok = legal && h->live && !fails('t');
    std::string out, in;
    if (ok)
    {
        if (tx) out.assign((const char*)t->tx_buffer, len);
        if (rx) { for (size_t i = 0; i < rxlen; ++i) in.push_back((char)next_miso()); memcpy(t->rx_buffer, in.data(), rxlen); }
    }
    Ev("Piece").boolean("legal", legal).boolean("ok", ok).num("dev", h->id).boolean("live", h->live).num("n", tx ? len : rxlen).boolean("hastx", tx).bytes("tx", out).boolean("hasrx", rx).bytes("rx", in).emit();
    return ok ? ESP_OK : ESP_ERR_TIMEOUT;
}
esp_err_t spi_device_transmit(spi_device_handle_t h, spi_transaction_t* t) { return spi_device_polling_transmit(h, t); }
esp_err_t spi_device_acquire_bus(spi_device_handle_t, TickType_t) { return ESP_OK; }
void spi_device_release_bus(spi_device_handle_t) {}
void mock_error_check_failed(esp_err_t) { Ev("Abort").emit(); _exit(3); }
#endif

static std::map<int, std::unique_ptr<embedded::SpiBus>> bus;

int main(int argc, char** argv)
{
#ifdef MBV_ARDUINO
    drv::lanes(miso, outcome, bus);
#endif
    return drv::run(argc, argv,
        [] {
            bus.clear(); outcome.clear(); miso = 1;
#ifndef MBV_ARDUINO
            devices.clear(); hostMax.clear();
#endif
        },
        [](const std::string &c, drv::Tokens &t)
        {
            if (c == "F") { auto fn = t.str()[0]; outcome[fn].clear(); while (t.more()) outcome[fn].push_back(t.num()); return; }
            if (c == "Z") { miso = t.num(); return; }
            Ev e("Call");
#ifdef MBV_ARDUINO
            if (c == "C") { int o = t.num(), f = t.num(); e.str("op", "new").num("o", o).num("freq", f ? f : 4000000).emit(); bus[o] = f ? std::make_unique<embedded::SpiBus>(SPI, f) : std::make_unique<embedded::SpiBus>(SPI); Ev("Ret").boolean("res", true).emit(); return; }
            if (c == "b" || c == "w")
            {
                auto d = t.hex();
                e.str("op", "direct").num("o", 0).bytes("data", d).num("n", d.size()).emit();
                if (c == "b") bus[0]->sendBytes((const uint8_t*)d.data(), d.size()); else for (uint8_t x : d) bus[0]->sendByte(x);
                Ev("Ret").boolean("res", true).raw("buf", "[]").boolean("same", true).emit();
                return;
            }
#else
            if (c == "C") { int o = t.num(), h = t.num(); e.str("op", "new").num("o", o).num("host", h).emit(); bus[o] = std::make_unique<embedded::SpiBus>(h); Ev("Ret").boolean("res", true).emit(); return; }
            if (c == "I")
            {
                int o = t.num(); uint8_t sck = t.num(), mi = t.num(), mo = t.num(); int f = t.num(); bool half = t.str() == "h";
                e.str("op", "init").num("o", o).num("sck", sck).num("miso", mi).num("mosi", mo).num("freq", f).boolean("half", half).emit();
                embedded::GpioPinDefinition a { sck }, b { mi }, d { mo };
                bool r = bus[o]->init(a, b, d, f, half ? embedded::SpiBus::DuplexMode::Half : embedded::SpiBus::DuplexMode::Full);
                Ev("Ret").boolean("res", r).emit();
                return;
            }
            if (c == "R") { int o = t.num(); e.str("op", "release").num("o", o).emit(); Ev("Ret").boolean("res", bus[o]->release()).emit(); return; }
            if (c == "D") { int o = t.num(); e.str("op", "destroy").num("o", o).emit(); bus.erase(o); Ev("Ret").boolean("res", true).emit(); return; }
#endif
            int o = t.num();
            embedded::SpiDevice dev(*bus[o]);
            std::string d;
            size_t n;
            if (c == "g") n = t.num(); else { d = t.hex(); n = d.size(); }
            drv::Block tx(d), rx(n, n + 1 + (n > 1 && !d.empty() ? (uint8_t)d[1] : 0));
            memset(rx.get(), 0xA5, n);
            const char* op = c == "s" ? "send" : c == "g" ? "receive" : c == "x" || c == "y" ? "exchange" : nullptr;
            if (!op) _exit(99);
            e.str("op", op).num("o", o).num("n", n).bytes("data", d).emit();
            bool r;
            const uint8_t* result = rx.get();
            bool same = true;
            if (n > 65535) // more than a device takes at a time: by the bus itself
            {
                const uint8_t* in = c == "g" ? nullptr : tx.get();
                uint8_t* out = c == "s" ? nullptr : c == "y" ? tx.get() : rx.get();
                r = bus[o]->transfer(in, out, n);
                if (c == "s") n = 0; else result = out;
            }
            else if (c == "s") { r = dev.sendSync(tx.get(), n); n = 0; }
            else if (c == "g") r = dev.receiveSync(rx.get(), n);
            else if (c == "x") r = dev.sendAndReceive(tx.get(), rx.get(), n);
            else { r = dev.sendAndReceive(tx.get(), tx.get(), n); result = tx.get(); }
            if (c != "y") same = !memcmp(tx.get(), d.data(), d.size());
            Ev("Ret").boolean("res", r).bytes("buf", result, n).boolean("same", same).emit();
        });
}
