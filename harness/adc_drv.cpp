// Drives AnalogPin of one platform on a simulated converter.
//   D pin          define pin object number 0, 1, ...
//   F step         the next such step fails (queued): n new unit, c configure, r read   (each F applies to one call of that step)
//   V v            the next reading (queued; otherwise pseudo-random)
//   r obj          read once
#include "drv.h"
#include "AnalogPin.h"
#include <deque>
#include <map>
using drv::Ev;
static std::map<char, int> faults;
static std::deque<int> readings;
static uint32_t seed = 1;
static bool fails(char c) { return faults[c] > 0 && faults[c]-- > 0; }
static int reading()
{
    if (readings.empty()) { seed = seed * 1664525u + 1013904223u; return seed >> 20; }
    int v = readings.front(); readings.pop_front(); return v;
}
static int power = 0;

#ifdef MBV_ARDUINO
#include "Arduino.h"
#include "arduino/GpioPinDefinition.h"
void pinMode(uint8_t, uint8_t) { Ev("Stray").emit(); }
void digitalWrite(uint8_t, uint8_t) { Ev("Stray").emit(); }
int digitalRead(uint8_t) { Ev("Stray").emit(); return 0; }
uint16_t analogRead(uint8_t pin) { int v = reading(); Ev("Convert").num("pin", pin).num("v", v).emit(); return v; }
#else
#include "soc/adc_periph.h"
#include "esp_adc/adc_oneshot.h"
#include "esp32-esp-idf/GpioPinDefinition.h"
const int adc_channel_io_map[SOC_ADC_PERIPH_NUM][SOC_ADC_MAX_CHANNEL_NUM] = {
    { 36, 37, 38, 39, 32, 33, 34, 35, -1, -1 }, { 4, 0, 2, 15, 13, 12, 14, 27, 25, 26 } };
struct adc_oneshot_unit_ctx_t { int unit; bool live; };
static std::deque<adc_oneshot_unit_ctx_t> units; // handles are never reused, so that use after release is seen
static int live(int unit) { for (auto &u : units) if (u.live && u.unit == unit) return 1; return 0; }
static bool known(adc_oneshot_unit_handle_t h) { for (auto &u : units) if (&u == h && u.live) return true; return false; }
void mock_error_check_failed(esp_err_t) { Ev("Abort").emit(); _exit(3); }
esp_err_t adc_oneshot_new_unit(const adc_oneshot_unit_init_cfg_t* c, adc_oneshot_unit_handle_t* h)
{
    bool ok = (int)c->unit_id >= 0 && (int)c->unit_id < 2 && !live(c->unit_id) && !fails('n');
    Ev("New").num("unit", c->unit_id).boolean("ulp", c->ulp_mode != ADC_ULP_MODE_DISABLE).boolean("ok", ok).num("power", power).emit();
    if (!ok) return ESP_ERR_NOT_FOUND;
    units.push_back({ (int)c->unit_id, true });
    *h = &units.back();
    return ESP_OK;
}
esp_err_t adc_oneshot_config_channel(adc_oneshot_unit_handle_t h, adc_channel_t ch, const adc_oneshot_chan_cfg_t* c)
{
    if (!known(h)) { Ev("Stale").emit(); return ESP_ERR_INVALID_ARG; }
    bool ok = !fails('c');
    Ev("Configure").num("unit", h->unit).num("ch", ch).num("atten", c->atten).num("bits", c->bitwidth).boolean("ok", ok).emit();
    return ok ? ESP_OK : ESP_ERR_INVALID_ARG;
}
esp_err_t adc_oneshot_read(adc_oneshot_unit_handle_t h, adc_channel_t ch, int* out)
{
    if (!known(h)) { Ev("Stale").emit(); return ESP_ERR_INVALID_ARG; }
    bool ok = !fails('r');
    int v = reading();
    *out = v; // the contents are unspecified if the read fails
    Ev("Convert").num("unit", h->unit).num("ch", ch).boolean("ok", ok).num("v", v).emit();
    return ok ? ESP_OK : ESP_ERR_TIMEOUT;
}
esp_err_t adc_oneshot_del_unit(adc_oneshot_unit_handle_t h)
{
    if (!known(h)) { Ev("Stale").emit(); return ESP_ERR_INVALID_ARG; }
    h->live = false;
    Ev("Delete").num("unit", h->unit).emit();
    return ESP_OK;
}
esp_err_t adc_oneshot_io_to_channel(int io, adc_unit_t* unit, adc_channel_t* ch)
{
    for (int u = 0; u < 2; ++u) for (int c = 0; c < SOC_ADC_CHANNEL_NUM(u); ++c)
        if (io >= 0 && adc_channel_io_map[u][c] == io) { *unit = (adc_unit_t)u; *ch = (adc_channel_t)c; return ESP_OK; }
    return ESP_ERR_NOT_FOUND;
}
void adc_power_acquire(void) { ++power; }
void adc_power_release(void) { --power; if (power < 0) Ev("Stray").emit(); }
#endif

using namespace embedded;
static std::deque<GpioPinDefinition> defs;
static std::deque<AnalogPin> pins;

int main(int argc, char** argv)
{
    return drv::run(argc, argv, []
        {
            pins.clear(); defs.clear(); faults.clear(); readings.clear(); seed = 1; power = 0;
#ifndef MBV_ARDUINO
            units.clear();
#endif
        },
        [](const std::string &c, drv::Tokens &t)
        {
            if (c == "D") { defs.push_back({ (uint8_t)t.num() }); pins.emplace_back(defs.back()); return; }
            if (c == "F") { faults[t.str()[0]]++; return; }
            if (c == "V") { readings.push_back(t.num()); return; }
            if (c != "r") _exit(99);
            int o = t.num();
            Ev("Call").num("pin", defs[o].pin).emit();
            int r = pins.at(o).singleRead();
            Ev("Ret").num("res", r).num("power", power).emit();
            faults.clear(); readings.clear();
        });
}
