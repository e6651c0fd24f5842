// Drives GpioDigitalPin and ChipSelector of one platform on simulated pads.
//   D pin                 define pin object number 0, 1, ... on that pin
//   O pin level           the outside drives the pin
//   F ok                  outcome of the next driver configurations (queued)
//   i obj dir pull        initialise (dir i/o, pull u/d/n; "-" leaves the default)
//   h obj | l obj | v obj level | k obj   set, reset, set(level), check
//   s obj | u             a chip selector begins on that pin | the last one ends
#include "drv.h"
#include "GpioDigitalPin.h"
#include <deque>
#include <map>
#include <memory>
using drv::Ev;
static std::map<int, int> outside;
static std::deque<bool> outcomes;
static bool outcome() { bool r = true; if (!outcomes.empty()) { r = outcomes.front(); outcomes.pop_front(); } return r; }
static int level(int p) { auto i = outside.find(p); return i == outside.end() ? 0 : i->second; }

#ifdef MBV_ARDUINO
#include "Arduino.h"
#include "arduino/GpioPinDefinition.h"
void pinMode(uint8_t pin, uint8_t m)
{
    const char* dir = (m & ~(PULLUP | PULLDOWN)) == INPUT ? "input" : (m & ~(PULLUP | PULLDOWN)) == OUTPUT ? "output" : "other";
    Ev("Config").raw("pins", "[" + std::to_string(pin) + "]").str("dir", dir).boolean("up", m & PULLUP).boolean("down", m & PULLDOWN).boolean("quiet", true).boolean("ok", true).emit();
}
void digitalWrite(uint8_t pin, uint8_t v) { Ev("Write").num("pin", pin).num("level", v != 0).emit(); }
int digitalRead(uint8_t pin) { Ev("Read").num("pin", pin).num("level", level(pin)).emit(); return level(pin); }
uint16_t analogRead(uint8_t) { return 0; }
#else
#include "driver/gpio.h"
#include "esp32-esp-idf/GpioPinDefinition.h"
void mock_error_check_failed(esp_err_t) { Ev("Abort").emit(); _exit(3); }
static const char* direction(gpio_mode_t m) { return m == GPIO_MODE_INPUT ? "input" : m == GPIO_MODE_OUTPUT ? "output" : "other"; }
static std::map<int, std::pair<bool, bool>> pulls;
esp_err_t gpio_config(const gpio_config_t* c)
{
    bool ok = c->pin_bit_mask && !(c->pin_bit_mask & ~SOC_GPIO_VALID_GPIO_MASK)
        && !((c->mode & GPIO_MODE_OUTPUT) && (c->pin_bit_mask & ~SOC_GPIO_VALID_OUTPUT_GPIO_MASK)) && outcome();
    std::string l;
    for (int i = 0; i < 64; ++i) if (c->pin_bit_mask >> i & 1) l += (l.empty() ? "" : ",") + std::to_string(i);
    Ev("Config").raw("pins", "[" + l + "]").str("dir", direction(c->mode)).boolean("up", c->pull_up_en == GPIO_PULLUP_ENABLE)
        .boolean("down", c->pull_down_en == GPIO_PULLDOWN_ENABLE).boolean("quiet", c->intr_type == GPIO_INTR_DISABLE).boolean("ok", ok).emit();
    return ok ? ESP_OK : ESP_ERR_INVALID_ARG;
}
esp_err_t gpio_set_level(gpio_num_t n, uint32_t v) { Ev("Write").num("pin", n).num("level", v != 0).emit(); return GPIO_IS_VALID_OUTPUT_GPIO((int)n) ? ESP_OK : ESP_ERR_INVALID_ARG; }
int gpio_get_level(gpio_num_t n) { Ev("Read").num("pin", n).num("level", level(n)).emit(); return level(n); }
static bool usable(int n) { return GPIO_IS_VALID_GPIO(n) && outcome(); }
esp_err_t gpio_set_direction(gpio_num_t n, gpio_mode_t m)
{
    bool ok = usable(n) && !((m & GPIO_MODE_OUTPUT) && !GPIO_IS_VALID_OUTPUT_GPIO((int)n));
    Ev("Direction").num("pin", n).str("dir", direction(m)).boolean("ok", ok).emit();
    return ok ? ESP_OK : ESP_ERR_INVALID_ARG;
}
esp_err_t gpio_set_pull_mode(gpio_num_t n, gpio_pull_mode_t p)
{
    bool ok = usable(n);
    Ev("Pull").num("pin", n).boolean("up", p == GPIO_PULLUP_ONLY || p == GPIO_PULLUP_PULLDOWN).boolean("down", p == GPIO_PULLDOWN_ONLY || p == GPIO_PULLUP_PULLDOWN).boolean("ok", ok).emit();
    return ok ? ESP_OK : ESP_ERR_INVALID_ARG;
}
esp_err_t gpio_reset_pin(gpio_num_t n)
{
    bool ok = usable(n);
    Ev("Direction").num("pin", n).str("dir", "none").boolean("ok", ok).emit();
    return ok ? ESP_OK : ESP_ERR_INVALID_ARG;
}
#endif

using namespace embedded;
static std::deque<GpioPinDefinition> defs;
static std::deque<GpioDigitalPin> pins;
static std::vector<std::unique_ptr<ChipSelector>> selectors;
static std::vector<int> selected;

int main(int argc, char** argv)
{
    return drv::run(argc, argv, []
        {
            while (!selectors.empty()) selectors.pop_back();
            selected.clear(); pins.clear(); defs.clear(); outside.clear(); outcomes.clear();
        },
        [](const std::string &c, drv::Tokens &t)
        {
            if (c == "D") { defs.push_back({ (uint8_t)t.num() }); pins.emplace_back(defs.back()); return; }
            if (c == "O") { int p = t.num(); outside[p] = t.num(); return; }
            if (c == "F") { outcomes.push_back(t.num()); return; }
            int o = c == "u" ? selected.back() : t.num();
            auto &pin = pins.at(o);
            Ev e("Call");
            e.num("pin", defs[o].pin);
            bool res = true;
            if (c == "i")
            {
                auto d = t.str(), p = t.str();
                e.str("op", "init").str("dir", d == "i" ? "input" : "output").boolean("up", p == "u").boolean("down", p == "d").emit();
                auto dir = d == "i" ? GpioDigitalPin::Direction::Input : GpioDigitalPin::Direction::Output;
                auto pull = p == "u" ? GpioDigitalPin::PullMode::Up : p == "d" ? GpioDigitalPin::PullMode::Down : GpioDigitalPin::PullMode::None;
                res = d == "-" ? pin.init() : p == "-" ? pin.init(dir) : pin.init(dir, pull);
            }
            else if (c == "h") { e.str("op", "set").emit(); pin.set(); }
            else if (c == "l") { e.str("op", "reset").emit(); pin.reset(); }
            else if (c == "v") { int v = t.num(); e.str("op", v ? "set" : "reset").emit(); pin.set(v != 0); }
            else if (c == "k") { e.str("op", "check").emit(); res = pin.check(); }
            else if (c == "s") { e.str("op", "select").emit(); selectors.push_back(std::make_unique<ChipSelector>(pin)); selected.push_back(o); }
            else if (c == "u") { e.str("op", "deselect").emit(); selected.pop_back(); selectors.pop_back(); }
            else _exit(99);
            Ev("Ret").boolean("res", res).emit();
            outcomes.clear();
        });
}
