// Drives the delays, clocks and sleeps of one platform on a virtual clock.
//   C s us          the clock of the platform at the start (microseconds since power-up: s*1000000+us)
//   J jitter seed   every call into the platform takes up to that many microseconds more
//   P n us          at the n-th call into the platform from here on, us microseconds pass
//   S ok err        outcome of the next light sleep: started or refused; error of its length in microseconds (queued)
//   d ms | u us | m | M | l ms | D ms      delay, delayMicroseconds, tick getters, light sleep, deep sleep
//   A us            time passes
#include "drv.h"
#include "mock/world.h"
#include <algorithm>
#include <deque>
using drv::Ev;
static std::string pair(uint64_t us) { return "[" + std::to_string(us / 1000000) + "," + std::to_string(us % 1000000) + "]"; }
struct Outcome { bool ok; int64_t err; };
static std::deque<Outcome> sleeps;
static int64_t programmed = -1;
static uint64_t grain = 0;

#ifdef MBV_ARDUINO
#include "Arduino.h"
#include "Delays.h"
Ticks millis() { world::touch(); return { (uint32_t)(world::clock() / 1000) }; }
Ticks micros() { world::touch(); return { (uint32_t)world::clock() }; }
void delay(uint32_t ms) { world::touch(); world::advance(ms * 1000ull); }
void delayMicroseconds(uint32_t us) { world::touch(); world::advance(us); }
void yield() { world::touch(); }
#else
#include "esp_timer.h"
#include "freertos/FreeRTOS.h"
#include "freertos/task.h"
static long spins = 0;
int64_t esp_timer_get_time(void)
{
    world::touch();
    // a long busy wait comes to an end in steps that grow with the time it has taken
    if (++spins % 1000 == 0) { grain = grain ? grain * 2 : 1; if (grain > 4000000) grain = 4000000; }
    world::advance(grain);
    return world::clock();
}
static uint64_t tickUs = MOCK_TICK_MS * 1000ull;
void vTaskDelay(const TickType_t ticks)
{
    world::touch();
    if (ticks) world::advance(ticks * tickUs - world::clock() % tickUs); // until that many ticks of the scheduler
}
TickType_t xTaskGetTickCount(void) { world::touch(); return world::clock() / tickUs; }
void taskYIELD_(void) { world::touch(); }
void mock_error_check_failed(esp_err_t) { Ev("Abort").emit(); _exit(3); }
#include "esp32-esp-idf/SleepFunctions.h"
esp_err_t esp_sleep_enable_timer_wakeup(uint64_t us)
{
    world::touch();
    programmed = us;
    Ev("Program").raw("us", pair(us)).emit();
    return ESP_OK;
}
esp_err_t esp_sleep_disable_wakeup_source(esp_sleep_source_t) { programmed = -1; return ESP_OK; }
esp_err_t esp_light_sleep_start(void)
{
    world::touch();
    Outcome o { true, 0 };
    if (!sleeps.empty()) { o = sleeps.front(); sleeps.pop_front(); }
    if (o.ok && programmed < 0) { Ev("Forever").emit(); _exit(3); }
    int64_t lasts = !o.ok ? 0 : std::max<int64_t>(0, programmed + o.err);
    Ev("Sleep").boolean("ok", o.ok).raw("late", pair(o.ok && o.err > 0 ? o.err : 0)).emit();
    world::advance(lasts);
    return o.ok ? ESP_OK : ESP_FAIL;
}
void esp_deep_sleep_start(void) { Ev("Deep").boolean("set", programmed >= 0).raw("us", pair(programmed < 0 ? 0 : programmed)).emit(); }
void esp_deep_sleep(uint64_t us) { programmed = us; esp_deep_sleep_start(); }
esp_sleep_wakeup_cause_t esp_sleep_get_wakeup_cause(void) { return ESP_SLEEP_WAKEUP_TIMER; }
#endif

int main(int argc, char** argv)
{
    static uint64_t pause = 0;
    return drv::run(argc, argv, [] { world::start(0); sleeps.clear(); programmed = -1; pause = 0; },
        [](const std::string &c, drv::Tokens &t)
        {
            if (c == "C") { uint64_t s = t.unum(); world::base = s * 1000000 + t.unum(); return; }
            if (c == "J") { world::jitter = t.num(); world::seed = t.num(); return; }
            if (c == "P") { world::readings = 0; world::stallAt = t.num(); world::stall = pause = t.num(); return; }
            if (c == "S") { Outcome o; o.ok = t.num(); o.err = t.num(); sleeps.push_back(o); return; }
            if (c == "A") { world::advance(t.unum()); return; }
            uint32_t n = c == "m" || c == "M" ? 0 : (uint32_t)t.unum();
            std::string res = "[0,0]";
            auto call = [&](const char* op, uint64_t us)
            {
                Ev("Call").str("op", op).raw("us", pair(us)).raw("at", pair(world::clock())).raw("pause", pair(pause)).num("jitter", world::jitter + 1).emit();
            };
#ifndef MBV_ARDUINO
            spins = 0; grain = 0;
#endif
            if (c == "d") { call("delay", n * 1000ull); embedded::delay(n); }
            else if (c == "u") { call("delayMicroseconds", n); embedded::delayMicroseconds(n); }
            else if (c == "m") { call("milliseconds", 0); res = pair((uint64_t)embedded::getMillisecondTicks() * 1000); }
            else if (c == "M") { call("microseconds", 0); res = pair(embedded::getMicrosecondTicks()); }
#ifndef MBV_ARDUINO
            else if (c == "l") { call("lightSleep", n * 1000ull); embedded::ligntSleep(n); }
            else if (c == "D") { call("deepSleep", n * 1000ull); embedded::deepSleep(n); }
#endif
            else _exit(99);
            Ev("Ret").raw("at", pair(world::clock())).raw("res", res).raw("grain", pair(grain)).emit();
            sleeps.clear(); programmed = -1; world::stallAt = -1; pause = 0;
        });
}
