// Drives SimpleUartDevice::init on simulated UART ports.
//   F step            the next such step fails: c configure, p pins, i install
//   I port rx tx baud [data parity stop flow]      initialise (defaults if left out)
//   X port            somebody removes the driver of that port
#define MOCK_UART_INIT
#include "mock/esp32/uart_impl.h"
#include "esp32-esp-idf/SimpleUartDevice.h"
#include <map>
using drv::Ev;
static std::map<char, int> faults;
static bool fails(char c) { return faults[c] > 0 && faults[c]-- > 0; }
static std::set<int> installed;
static bool legal(int p) { return p >= 0 && p < 3; }
bool uart_is_driver_installed(uart_port_t p) { return installed.count(p); }
esp_err_t uart_param_config(uart_port_t p, const uart_config_t* c)
{
    bool ok = legal(p) && !fails('c');
    Ev("Config").num("port", p).boolean("ok", ok).num("baud", c->baud_rate).num("data", c->data_bits).num("parity", c->parity).num("stop", c->stop_bits)
        .num("flow", c->flow_ctrl).num("thresh", c->rx_flow_ctrl_thresh).emit();
    return ok ? ESP_OK : ESP_FAIL;
}
esp_err_t uart_set_pin(uart_port_t p, int tx, int rx, int rts, int cts)
{
    bool ok = legal(p) && !fails('p');
    Ev("Pins").num("port", p).boolean("ok", ok).num("tx", tx).num("rx", rx).num("rts", rts).num("cts", cts).emit();
    return ok ? ESP_OK : ESP_FAIL;
}
esp_err_t uart_driver_install(uart_port_t p, int rx, int tx, int queue, QueueHandle_t* q, int)
{
    // the driver wants a receive buffer larger than the hardware's, and none or a larger one for sending
    bool ok = legal(p) && !installed.count(p) && rx > UART_HW_FIFO_LEN(p) && (tx == 0 || tx > UART_HW_FIFO_LEN(p)) && (queue == 0 || q) && !fails('i');
    Ev("Install").num("port", p).boolean("ok", ok).boolean("again", installed.count(p)).boolean("blocking", tx == 0).emit();
    if (ok) installed.insert(p);
    return ok ? ESP_OK : ESP_FAIL;
}
esp_err_t uart_driver_delete(uart_port_t p) { Ev("Remove").num("port", p).emit(); return installed.erase(p) ? ESP_OK : ESP_FAIL; }

int main(int argc, char** argv)
{
    return drv::run(argc, argv, [] { world::start(0); uart::reset(); installed.clear(); faults.clear(); },
        [](const std::string &c, drv::Tokens &t)
        {
            using D = embedded::SimpleUartDevice;
            if (c == "F") { faults[t.str()[0]]++; return; }
            if (c == "X") { int p = t.num(); installed.erase(p); Ev("Removed").num("port", p).emit(); return; }
            if (c != "I") _exit(99);
            int port = t.num(), rx = t.num(), tx = t.num(), baud = t.num();
            int data = 8, parity = 0, stop = 2, flow = 0, given = 0;
            // bits per frame, 0 none 1 even 2 odd, half stop bits, 0 none 1 RTS 2 CTS 3 both
            if (t.more()) { data = t.num(); ++given; }
            if (t.more()) { parity = t.num(); ++given; }
            if (t.more()) { stop = t.num(); ++given; }
            if (t.more()) { flow = t.num(); ++given; }
            Ev("Call").num("port", port).num("rx", rx).num("tx", tx).num("baud", baud).num("data", data).num("parity", parity).num("stop", stop).num("flow", flow)
                .boolean("there", installed.count(port)).emit();
            const auto db = data == 5 ? D::DataBits::Bits5 : data == 6 ? D::DataBits::Bits6 : data == 7 ? D::DataBits::Bits7 : D::DataBits::Bits8;
            const auto pc = parity == 0 ? D::ParityCheck::None : parity == 1 ? D::ParityCheck::Even : D::ParityCheck::Odd;
            const auto sb = stop == 2 ? D::StopBits::Bits1 : stop == 3 ? D::StopBits::Bit1_5 : D::StopBits::Bits2;
            const auto fc = flow == 0 ? D::FlowControl::Disable : flow == 1 ? D::FlowControl::RTS : flow == 2 ? D::FlowControl::CTS : D::FlowControl::RTS_CTS;
            bool res = false, aborted = false;
            try
            {
                res = given == 0 ? D::init(port, rx, tx, baud) : given == 1 ? D::init(port, rx, tx, baud, db) : given == 2 ? D::init(port, rx, tx, baud, db, pc)
                    : given == 3 ? D::init(port, rx, tx, baud, db, pc, sb) : D::init(port, rx, tx, baud, db, pc, sb, fc);
            }
            catch (Aborted) { aborted = true; }
            Ev("Ret").boolean("res", res).boolean("aborted", aborted).emit();
            faults.clear();
        });
}
