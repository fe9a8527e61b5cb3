// Native replay search for the hardware back ends: the real sources over simulated devices (-DARD or -DESP).
#include "n_common.h"
#include <array>
#include <algorithm>
#include <new>
#include <string_view>
#ifdef ARD
#include "arduino/AnalogPin.cpp"
#include "arduino/Delays.cpp"
#include "arduino/GpioDigitalPin.cpp"
#include "arduino/I2CBus.cpp"
#include "arduino/I2CDevice.cpp"
#include "arduino/PacketUart.cpp"
#include "arduino/SerialOut.cpp"
#include "arduino/SpiBus.cpp"
#include "arduino/SpiDevice.cpp"
#else
#include "esp32-esp-idf/AnalogPin.cpp"
#include "esp32-esp-idf/Delays.cpp"
#include "esp32-esp-idf/GpioDigitalPin.cpp"
#include "esp32-esp-idf/I2CBus.cpp"
#include "esp32-esp-idf/I2CDevice.cpp"
#include "esp32-esp-idf/PacketUart.cpp"
#include "esp32-esp-idf/SerialOut.cpp"
#include "esp32-esp-idf/SimpleUartDevice.cpp"
#include "esp32-esp-idf/SleepFunctions.h"
#include "esp32-esp-idf/SpiBus.cpp"
#include "esp32-esp-idf/SpiDevice.cpp"
#endif
#include "BufferedOut.cpp"
using namespace embedded;

// ------------------------------------------------------------ simulated world
static uint64_t T, T0, Tread;                   // microseconds: now, at the start, at the last clock reading
static bool reading;
static uint64_t gap;
static void pass(uint64_t us) { T += us; }
static std::vector<uint8_t> wire;               // bytes a device answers with / that arrive on the line
static size_t wpos;
static bool steady;                             // the line delivers without interruption
static std::vector<uint8_t> sentv;              // bytes that went out
static bool failnow() { return rnd(6) == 0; }
static bool failed;
static std::string lg;
static bool packet;                             // inside a received packet
static uint64_t limit; static bool unlimited, quit;
static uint64_t tick() { pass(1 + (rnd(3) ? rnd(gap + 1) : 0)); return T; }
static uint64_t ms()
{
    tick();
    if (!reading) { reading = true; T0 = T; }
    Tread = T;
    return T / 1000;
}
static uint64_t spent() { return Tread / 1000 - T0 / 1000; }
static int next()                               // one byte of the line, or -1
{
    if (reading && !unlimited && spent() > limit) fail("reads from the line %llu ms after the start, limit %llu ms", (unsigned long long)spent(), (unsigned long long)limit);
    if (wpos >= wire.size() || rnd(4) == 0) return -1;
    return wire[wpos++];
}
static int dev1;
static void* const DEV = &dev1;
#ifdef ARD
static unsigned long own = 1000, tmo = 1000;
extern "C" {
uint32_t millis() { return uint32_t(ms()); }
uint32_t micros() { return uint32_t(tick()); }
void delay(uint32_t m) { pass(m * 1000ull); }
void delayMicroseconds(uint32_t u) { pass(u); }
void pinMode(uint8_t p, uint8_t m) { char b[32]; snprintf(b, 32, "mode %d %d;", p, m); lg += b; }
void digitalWrite(uint8_t p, uint8_t v) { char b[32]; snprintf(b, 32, "out %d %d;", p, v != 0); lg += b; }
static int lvl;
int digitalRead(uint8_t p) { char b[32]; snprintf(b, 32, "in %d;", p); lg += b; return lvl; }
uint16_t analogRead(uint8_t p) { return p * 257; }
}
unsigned long HardwareSerial::getTimeout() { return tmo; }
void HardwareSerial::setTimeout(unsigned long t) { tmo = t; }
int HardwareSerial::available() { return wpos < wire.size(); }
int HardwareSerial::peek() { return wpos < wire.size() ? wire[wpos] : -1; }
int HardwareSerial::read() { return next(); }
size_t HardwareSerial::readBytes(uint8_t* b, size_t n)
{
    size_t k = 0;
    unsigned long want = limit ? limit : own;
    if (tmo != want) fail("waits %lu ms for a byte, %lu requested", tmo, want);
    while (k < n && wpos < wire.size() && (steady || rnd(12))) b[k++] = wire[wpos++];
    if (k < n) { quit = true; pass(tmo * 1000ull); }
    return k;
}
size_t HardwareSerial::readBytesUntil(char e, uint8_t* b, size_t n)
{
    size_t k = 0;
    while (k < n && wpos < wire.size() && (steady || rnd(12)))
    {
        uint8_t x = wire[wpos++];
        if (x == uint8_t(e)) return k;
        b[k++] = x;
    }
    if (k < n) { quit = true; pass(tmo * 1000ull); }
    return k;
}
size_t HardwareSerial::write(uint8_t b) { sentv.push_back(b); return 1; }
static size_t accept_ = ~size_t(0);
size_t HardwareSerial::write(const uint8_t* b, size_t n) { sentv.insert(sentv.end(), b, b + n); return std::min(n, accept_); }
void HardwareSerial::flush() {}
void HardwareSerial::flush(bool) {}
static int txn, txns;
void SPIClass::beginTransaction(SPISettings) { if (txn) fail("nested SPI transaction"); ++txn; ++txns; }
void SPIClass::endTransaction() { if (!txn) fail("SPI transaction ended twice"); --txn; }
static uint8_t xfer(int x) { sentv.push_back(x < 0 ? 0xFF : x); if (wpos >= wire.size()) fail("more SPI bytes than requested"); return wire[wpos++]; }
uint8_t SPIClass::transfer(uint8_t d) { if (!txn) fail("SPI byte outside a transaction"); return xfer(d); }
void SPIClass::transferBytes(const uint8_t* d, uint8_t* o, uint32_t n)
{
    if (!txn) fail("SPI bytes outside a transaction");
    for (uint32_t i = 0; i < n; ++i) { uint8_t r = xfer(d ? d[i] : -1); if (o) o[i] = r; }
}
void SPIClass::write(uint8_t d) { xfer(d); }
void SPIClass::writeBytes(const uint8_t* d, uint32_t n) { for (uint32_t i = 0; i < n; ++i) xfer(d[i]); }
static int want_addr; static bool acc; static size_t got_;
void TwoWire::beginTransmission(uint16_t a) { if (a != want_addr) fail("addresses device %d", a); acc = true; sentv.clear(); }
size_t TwoWire::write(uint8_t b) { if (failnow()) { acc = false; failed = true; return 0; } sentv.push_back(b); return 1; }
size_t TwoWire::write(const uint8_t* d, size_t n) { std::vector<uint8_t> c(d, d + n); sentv.insert(sentv.end(), c.begin(), c.end()); if (n && failnow()) { failed = true; return rnd(n); } return n; }
uint8_t TwoWire::endTransmission() { return endTransmission(true); }
uint8_t TwoWire::endTransmission(bool stop) { lg += stop ? "sent;" : "held;"; if (failnow()) { failed = true; return 1 + rnd(4); } return 0; }
size_t TwoWire::requestFrom(int a, int n)
{
    if (a != want_addr) fail("requests from device %d", a);
    lg += failed ? "request after failure;" : "request;";
    wpos = 0;
    if (failnow()) { size_t r = rnd(n + 1); if (r != size_t(n)) failed = true; got_ = r; return r; }
    got_ = n;
    return n;
}
int TwoWire::available() { return got_ - wpos; }
int TwoWire::read() { return wpos < got_ ? wire[wpos++] : -1; }
#else
static int bus_up, dev_up, links;
static int unitu, powr;
static const uint32_t MAXDMA = 4092;
extern "C" {
int64_t esp_timer_get_time() { return int64_t(reading && 0 ? T : (ms(), T)); }
void vTaskDelay(TickType_t n) { pass(n * 10000ull); }
static uint64_t armed; static int slept;
esp_err_t esp_sleep_enable_timer_wakeup(uint64_t us) { armed = us; return 0; }
esp_err_t esp_light_sleep_start() { if (failnow()) return -1; pass(rnd(4) ? armed : rnd(armed + 1)); return 0; }
void esp_deep_sleep_start() { ++slept; }
struct Aborted {};
void esp_check_failed(esp_err_t) { throw Aborted(); }
static bool u_there; static int u_port, u_rx, u_tx, u_cfg, u_pins, u_inst; static uart_config_t u_want;
static void u_on(int n) { if (n != u_port) fail("uses port %d", n); if (u_there) fail("changes an installed port"); }
bool uart_is_driver_installed(uart_port_t n) { if (n != u_port) fail("asks about port %d", n); return u_there; }
esp_err_t uart_param_config(uart_port_t n, const uart_config_t* c)
{
    u_on(n);
    ++u_cfg;
    if (c->baud_rate != u_want.baud_rate || c->data_bits != u_want.data_bits || c->parity != u_want.parity || c->stop_bits != u_want.stop_bits || c->flow_ctrl != u_want.flow_ctrl)
        fail("configures %d baud, data %d parity %d stop %d flow %d", c->baud_rate, c->data_bits, c->parity, c->stop_bits, c->flow_ctrl);
    if (c->rx_flow_ctrl_thresh >= 128 || ((c->flow_ctrl & 1) && !c->rx_flow_ctrl_thresh)) fail("flow control threshold %d", c->rx_flow_ctrl_thresh);
    if (failnow()) { failed = true; return -1; }
    return 0;
}
esp_err_t uart_set_pin(uart_port_t n, int tx, int rx, int rts, int cts)
{
    u_on(n);
    ++u_pins;
    if (tx != u_tx || rx != u_rx || rts != -1 || cts != -1) fail("wires tx %d rx %d rts %d cts %d", tx, rx, rts, cts);
    if (failnow()) { failed = true; return -1; }
    return 0;
}
esp_err_t uart_driver_install(uart_port_t n, int rx, int, int, void*, int)
{
    u_on(n);
    ++u_inst;
    if (rx <= 128) fail("receive buffer of %d bytes", rx);
    if (failnow()) { failed = true; return -1; }
    return 0;
}
static int wres;
int uart_write_bytes(uart_port_t, const void* s, size_t n) { const uint8_t* p = (const uint8_t*)s; if (wres < 0) return -1; sentv.insert(sentv.end(), p, p + n); return n; }
esp_err_t uart_wait_tx_done(uart_port_t, TickType_t) { return 0; }
int uart_read_bytes(uart_port_t, void* b, uint32_t n, TickType_t ticks)
{
    uint64_t used = reading ? spent() : 0, left = limit >= used ? limit - used : 0;
    if (!unlimited && reading && used > limit) fail("reads from the line %llu ms after the start, limit %llu ms", (unsigned long long)used, (unsigned long long)limit);
    if (!unlimited && ticks * 10ull > left) fail("waits %llu ms, %llu left", ticks * 10ull, (unsigned long long)left);
    uint32_t k = 0;
    if (!steady && rnd(30) == 0) { if (!unlimited) quit = true; return -1; }
    while (k < n && wpos < wire.size() && (steady || rnd(12))) ((uint8_t*)b)[k++] = wire[wpos++];
    if (k < n) { pass(ticks * 10000ull); if (!unlimited && left - ticks * 10 < 10) quit = true; }
    return k;
}
esp_err_t spi_bus_initialize(spi_host_device_t, const spi_bus_config_t*, spi_dma_chan_t)
{ if (bus_up || failnow()) { failed = true; return -1; } bus_up = 1; return 0; }
esp_err_t spi_bus_add_device(spi_host_device_t, const spi_device_interface_config_t*, spi_device_handle_t* h)
{ if (!bus_up || dev_up || failnow()) { failed = true; return -1; } dev_up = 1; *h = (spi_device_handle_t)DEV; return 0; }
esp_err_t spi_bus_remove_device(spi_device_handle_t h)
{ if (!dev_up || h != DEV) fail("removes a device that is not there"); if (failnow()) { failed = true; return -1; } dev_up = 0; return 0; }
esp_err_t spi_bus_free(spi_host_device_t)
{ if (!bus_up || dev_up) fail("frees a bus that is not initialised or still in use"); if (failnow()) { failed = true; return -1; } bus_up = 0; return 0; }
static bool sp_tx, sp_rx;
esp_err_t spi_device_polling_transmit(spi_device_handle_t h, spi_transaction_t* t)
{
    if (h != DEV || !dev_up) fail("transfers without a device");
    if (failed) fail("transfers after a failure");
    size_t n = (sp_tx ? t->length : t->rxlength) / 8;
    if (!n || n > MAXDMA) fail("transaction of %zu bytes", n);
    if (sp_rx && sp_tx && t->rxlength && t->rxlength != t->length) fail("receives %zu bits, sends %zu", t->rxlength, t->length);
    if (!sp_tx && t->tx_buffer) fail("sends although only receiving");
    if (!sp_rx && t->rx_buffer) fail("receives although only sending");
    if (rnd(12) == 0) { failed = true; return -1; }
    for (size_t i = 0; i < n; ++i)
    {
        if (wpos >= wire.size()) fail("more SPI bytes than requested");
        if (sp_tx) sentv.push_back(((const uint8_t*)t->tx_buffer)[i]);
        if (sp_rx) ((uint8_t*)t->rx_buffer)[i] = wire[wpos];
        ++wpos;
    }
    return 0;
}
esp_err_t spi_device_transmit(spi_device_handle_t h, spi_transaction_t* t) { return spi_device_polling_transmit(h, t); }
static int want_addr, want_bus;
esp_err_t i2c_param_config(i2c_port_t, const i2c_config_t*) { return 0; }
esp_err_t i2c_driver_install(i2c_port_t, i2c_mode_t, size_t, size_t, int) { return 0; }
esp_err_t i2c_driver_delete(i2c_port_t) { return 0; }
esp_err_t i2c_master_write_to_device(i2c_port_t b, uint8_t a, const uint8_t* d, size_t n, TickType_t)
{ if (b != want_bus || a != want_addr) fail("addresses device %d on bus %d", a, b); sentv.assign(d, d + n); lg += "sent;"; if (failnow()) { failed = true; return -1; } return 0; }
esp_err_t i2c_master_read_from_device(i2c_port_t b, uint8_t a, uint8_t* d, size_t n, TickType_t)
{ if (b != want_bus || a != want_addr) fail("addresses device %d on bus %d", a, b); lg += failed ? "request after failure;" : "request;"; for (size_t i = 0; i < n; ++i) d[i] = wire[i]; if (failnow()) { failed = true; return -1; } return 0; }
i2c_cmd_handle_t i2c_cmd_link_create() { ++links; return DEV; }
void i2c_cmd_link_delete(i2c_cmd_handle_t h) { if (h != DEV || links != 1) fail("deletes a command list that is not there"); --links; }
esp_err_t i2c_master_start(i2c_cmd_handle_t) { lg += "start;"; return 0; }
esp_err_t i2c_master_write_byte(i2c_cmd_handle_t, uint8_t d, bool) { char b[32]; snprintf(b, 32, "byte %d;", d); lg += b; return 0; }
esp_err_t i2c_master_stop(i2c_cmd_handle_t) { lg += "stop;"; return 0; }
esp_err_t i2c_master_cmd_begin(i2c_port_t, i2c_cmd_handle_t, TickType_t) { lg += "begin;"; if (failnow()) { failed = true; return -1; } return 0; }
static gpio_config_t cfg; static int lvl;
esp_err_t gpio_config(const gpio_config_t* c) { cfg = *c; lg += "conf;"; if (failnow()) { failed = true; return -1; } return 0; }
esp_err_t gpio_set_level(gpio_num_t p, uint32_t v) { char b[32]; snprintf(b, 32, "out %d %d;", p, v != 0); lg += b; return 0; }
int gpio_get_level(gpio_num_t p) { char b[32]; snprintf(b, 32, "in %d;", p); lg += b; return lvl; }
static int a_unit_, a_ch;
void adc_power_acquire() { ++powr; }
void adc_power_release() { if (--powr < 0) fail("releases power twice"); }
esp_err_t adc_oneshot_new_unit(const adc_oneshot_unit_init_cfg_t* c, adc_oneshot_unit_handle_t* h)
{ if (unitu) fail("acquires a second unit"); if (failnow()) { failed = true; return -1; } unitu = 1; a_unit_ = c->unit_id; *h = (adc_oneshot_unit_handle_t)DEV; return 0; }
esp_err_t adc_oneshot_config_channel(adc_oneshot_unit_handle_t, adc_channel_t c, const adc_oneshot_chan_cfg_t*) { a_ch = c; if (failnow()) { failed = true; return -1; } return 0; }
esp_err_t adc_oneshot_read(adc_oneshot_unit_handle_t, adc_channel_t c, int* o)
{ if (!unitu || c != a_ch) fail("reads an unconfigured channel"); *o = 1000 + adc_channel_io_map[a_unit_][c]; if (failnow()) { failed = true; *o = 5; return -1; } return 0; }
esp_err_t adc_oneshot_del_unit(adc_oneshot_unit_handle_t) { if (!unitu) fail("releases a unit twice"); unitu = 0; return failnow() ? -1 : 0; }
}
#endif

static std::vector<uint8_t> bytes(size_t n) { std::vector<uint8_t> v(n); for (auto& x : v) x = rnd(3) ? rnd() : rnd(4); return v; }
static void reset()
{
    T = rnd(3) ? rnd() >> 20 : (1ull << 32) * 1000 - rnd(300000);
    if (rnd(4) == 0) T = rnd(5000);
    gap = rnd(4) ? rnd(3000) : rnd(100000);
    reading = false; wire.clear(); wpos = 0; sentv.clear(); failed = false; lg.clear(); quit = false; unlimited = true; limit = 0;
}
static void h01()
{
    size_t n = rnd(4) ? rnd(40) : rnd(20000);
    int mode = rnd(3);
    auto tx = bytes(n), rx = bytes(n);
    wire = bytes(n);
    bool dev = rnd(2);
    note("SPI %s of %zu bytes", mode == 0 ? "send" : mode == 1 ? "receive" : "exchange", n);
    std::vector<uint8_t> t(tx);
    t.shrink_to_fit(); rx.shrink_to_fit();
    bool r;
#ifdef ARD
    SPIClass spi;
    SpiBus bus(spi);
    txns = 0;
#else
    bus_up = dev_up = 0; sp_tx = mode != 1; sp_rx = mode != 0;
    SpiBus bus(1);
    GpioPinDefinition a, b, c;
    if (!bus.init(a, b, c)) { if (n && bus.transfer(t.data(), nullptr, n)) fail("transfer on an uninitialised bus succeeds"); failed = false; while (!bus.release()); return; }
    failed = false;
#endif
    SpiDevice d(bus);
    uint8_t dummy[1];
    uint8_t *pt = n ? t.data() : dummy, *pr = n ? rx.data() : dummy;
    if (mode == 0) r = dev ? d.sendSync(pt, n) : bus.transfer(pt, nullptr, n);
    else if (mode == 1) r = dev ? d.receiveSync(pr, n) : bus.transfer(nullptr, pr, n);
    else r = dev ? d.sendAndReceive(pt, pr, n) : bus.transfer(pt, pr, n);
    if (r == failed) fail("reports %s", r ? "success" : "failure");
    if (t != tx) fail("changes the bytes to send");
#ifdef ARD
    if (txn || txns != 1) fail("%d SPI transactions", txns);
    bool out = mode != 1;
#else
    bool out = sp_tx;
    bool was = failed; failed = false;
    while (!bus.release());
    failed = was;
#endif
    if (failed) return;
    if (wpos != n) fail("moves %zu bytes", wpos);
    if (out && sentv != tx) fail("other bytes are sent");
    if (mode && rx != wire) fail("other bytes are received");
}
static void h02()
{
    uint16_t n = rnd(5) ? rnd(12) : rnd(3) ? rnd(300) : 250 + rnd(400), t = rnd(4) ? rnd(60) : rnd(3) ? 0 : rnd(65536);
    int op = rnd(4);
    uint8_t s = rnd(4), e = rnd(4);
    static PacketUart::UartDevice dev(1);
    PacketUart u(dev);
    if (op == 3)
    {
        auto b = bytes(n);
        uint32_t tt = rnd(3) ? rnd(100) : 0;
        note("Send(%u bytes, %u)", n, tt);
#ifdef ARD
        accept_ = rnd(2) ? ~size_t(0) : rnd(n + 1);
        tmo = own;
        size_t want = std::min<size_t>(n, accept_);
#else
        wres = rnd(4) ? 0 : -1;
        size_t want = wres < 0 ? 0 : n;
#endif
        size_t r = u.Send(b.data(), n, tt);
        if (r != want) fail("reports %zu bytes, %zu accepted", r, want);
#ifdef ARD
        if (tmo != own) fail("timeout not restored");
        if (sentv != b) fail("other bytes are sent");
#else
        if (wres >= 0 && sentv != b) fail("other bytes are sent");
#endif
        return;
    }
    limit = t;
#ifdef ARD
    unlimited = op != 0 && t == 0;
    tmo = own;
#else
    unlimited = op == 1 && t == 0;
#endif
    wire = bytes(unlimited ? 4000 : rnd(n + 20));
    if (unlimited) for (auto& x : wire) x = rnd(8);
    if (n > 200) { for (auto& x : wire) x = 8 + rnd(200); if (op == 2) wire.insert(wire.begin() + rnd(4) % (wire.size() + 1), s); if (wire.size() > n / 2 && unlimited) wire[n / 2 + rnd(n)] = e; }
    steady = n > 200;
    note("%s(%u bytes, start %d, end %d, timeout %u), clock %llu ms, line:", op == 0 ? "Receive" : op == 1 ? "ReceiveUntil" : "ReceiveBetween", n, s, e, t,
         (unsigned long long)(T / 1000));
    for (size_t i = 0; i < wire.size() && i < 24; ++i) note(" %02x", wire[i]);
    uint8_t* b = new uint8_t[n];
    memset(b, 0xEE, n);
    size_t r = op == 0 ? u.Receive(b, n, t) : op == 1 ? u.ReceiveUntil(b, n, e, t) : u.ReceiveBetween(b, n, s, e, t);
    if (r > n) fail("reports %zu bytes", r);
    size_t skip = 0, lo = 0;
    if (op == 2)
    {
        while (skip < wpos && wire[skip] != s) ++skip;
        lo = 1;
    }
    if (r != wpos - skip) fail("reports %zu bytes, took %zu", r, wpos - skip);
    bool end = false;
    for (size_t i = 0; i < r; ++i)
    {
        if (b[i] != wire[skip + i]) fail("byte %zu is %02x, arrived %02x", i, b[i], wire[skip + i]);
        if (op && i >= lo && b[i] == e) { end = true; if (i + 1 < r) fail("goes on after the end byte at %zu", i); }
    }
    bool late = !unlimited && reading && spent() >= t;
    if (!(n < (op == 2 ? 2 : 1) || r == n || end || late || quit || (t == 0 && !unlimited))) fail("gives up early after %zu bytes (%llu ms)", r, (unsigned long long)spent());
#ifdef ARD
    if (tmo != own) fail("timeout not restored");
#endif
    delete[] b;
}
static void h03()
{
    int op = rnd(5);
    GpioPinDefinition def;
    def.pin = rnd(3) ? rnd(40) : rnd(256);
    if (op < 3)
    {
        uint16_t n = rnd(9), m = rnd(9);
        auto tx = bytes(n), rx = bytes(m);
        wire = bytes(m);
        want_addr = rnd(128);
        note("I2C %s, %d bytes to and %d from device %d", op == 0 ? "send" : op == 1 ? "receive" : "send then receive", n, m, want_addr);
#ifdef ARD
        TwoWire w;
        I2CBus bus(w);
#else
        want_bus = rnd(2);
        I2CBus bus(want_bus);
#endif
        I2CDevice d(bus, want_addr);
        bool r = op == 0 ? d.sendSync(tx.data(), n) : op == 1 ? d.receiveSync(rx.data(), m) : d.sendThenReceive(tx.data(), n, rx.data(), m);
        if (r == failed) fail("reports %s", r ? "success" : "failure");
        if (lg.find("held") != lg.npos) fail("does not send");
        if (lg.find("request after failure") != lg.npos) fail("receives after a failed send");
        if (r && op != 1 && sentv != tx) fail("other bytes are sent");
        if (r && op && rx != wire) fail("other bytes are received");
        return;
    }
    GpioDigitalPin pin(def);
    char want[64];
    if (op == 3)
    {
        bool level = rnd(2);
        lvl = rnd(3);
        note("pin %d level %d", def.pin, level);
        switch (rnd(4))
        {
        case 0: level ? pin.set() : pin.reset(); break;
        case 1: pin.set(level); break;
        case 2: if (pin.check() != (lvl != 0)) fail("check reports %d for level %d", lvl == 0, lvl);
            snprintf(want, 64, "in %d;", def.pin);
            if (lg != want) fail("%s instead of %s", lg.c_str(), want);
            return;
        default:
        {
            { ChipSelector c(pin); snprintf(want, 64, "out %d 0;", def.pin); if (lg != want) fail("%s instead of %s", lg.c_str(), want); lg.clear(); }
            level = true;
        }
        }
        snprintf(want, 64, "out %d %d;", def.pin, level);
        if (lg != want) fail("%s instead of %s", lg.c_str(), want);
        return;
    }
    bool in = rnd(2);
    int p = rnd(3);
    note("pin %d init %s pull %d", def.pin, in ? "input" : "output", p);
    bool r = pin.init(in ? GpioDigitalPin::Direction::Input : GpioDigitalPin::Direction::Output,
                      p == 1 ? GpioDigitalPin::PullMode::Up : p == 2 ? GpioDigitalPin::PullMode::Down : GpioDigitalPin::PullMode::None);
#ifdef ARD
    snprintf(want, 64, "mode %d %d;", def.pin, (in ? 1 : 3) | (p == 1 ? 4 : p == 2 ? 8 : 0));
    if (lg != want || !r) fail("%s instead of %s", lg.c_str(), want);
#else
    bool ok = GPIO_IS_VALID_GPIO(def.pin);
    if (r != (ok && !failed)) fail("reports %d", r);
    if (lg != (ok ? "conf;" : "")) fail("configures %s", lg.c_str());
    if (ok && (cfg.pin_bit_mask != 1ull << def.pin || cfg.mode != (in ? 1 : 2) || cfg.pull_up_en != (p == 1) || cfg.pull_down_en != (p == 2))) fail("other configuration");
#endif
}
static void h04()
{
#ifdef ESP
    if (rnd(3) == 0)
    {
        GpioPinDefinition def;
        def.pin = rnd(4) ? rnd(41) : rnd(256);
        note("analog read of pin %d", def.pin);
        AnalogPin p(def);
        bool known = false;
        for (auto& r : adc_channel_io_map) for (int x : r) known = known || x == def.pin;
        int r = p.singleRead();
        int w = failed || !known ? -1 : 1000 + def.pin;
        if (unitu || powr) fail("unit or power not released");
        if (r != w) fail("reads %d instead of %d", r, w);
        return;
    }
    if (rnd(4) == 0)
    {
        I2CBus b(1);
        bool r = b.testAddress(rnd(128));
        note("testAddress");
        if (links) { links = 0; fail("command list not released"); }
        if (r == failed) fail("reports %d", r);
        return;
    }
    bus_up = dev_up = 0;
    sp_tx = true; sp_rx = false;
    {
        SpiBus bus(1);
        GpioPinDefinition a, b, c;
        for (int n = rnd(6); n; --n)
        {
            int wb = bus_up, wd = dev_up;
            failed = false;
            switch (rnd(3))
            {
            case 0:
                note(" init");
                if (bus.init(a, b, c) == failed) fail("init reports the wrong result");
                if (failed && !wb && (dev_up || (bus_up && rnd(1)))) fail("a failed init leaves something allocated");
                break;
            case 1:
                note(" release");
                if (bus.release() == failed) fail("release reports the wrong result");
                if (!failed && (bus_up || dev_up)) fail("a successful release leaves bus %d device %d", bus_up, dev_up);
                break;
            default:
            {
                note(" transfer");
                uint8_t x[4];
                wire = bytes(4); wpos = 0;
                bool r = bus.transfer(x, nullptr, 4);
                if (r != (wd && !failed)) fail("transfer reports %d", r);
            }
            }
        }
        failed = false;
    }
    note(" destroy");
    if (!failed && (bus_up || dev_up)) fail("destruction leaves bus %d device %d", bus_up, dev_up);
    bus_up = dev_up = 0;
#endif
}
static void h06()
{
#ifdef ARD
    GpioPinDefinition def;
    def.pin = rnd(256);
    note("analog read of pin %d", def.pin);
    int r = AnalogPin(def).singleRead();
    if (r != uint16_t(def.pin * 257)) fail("reads %d", r);
#else
    if (rnd(3) == 0)
    {
        GpioPinDefinition def;
        def.pin = rnd(4) ? rnd(41) : rnd(256);
        note("analog read of pin %d", def.pin);
        bool known = false;
        for (auto& r : adc_channel_io_map) for (int x : r) known = known || x == def.pin;
        int r = AnalogPin(def).singleRead(), w = failed || !known ? -1 : 1000 + def.pin;
        if (r != w) fail("reads %d instead of %d", r, w);
        return;
    }
    typedef SimpleUartDevice U;
    static const int par[] = {0, 2, 3};
    u_there = rnd(6) == 0;
    u_port = rnd(3), u_rx = rnd(40), u_tx = rnd(40), u_cfg = u_pins = u_inst = 0;
    bool dflt = rnd(4) == 0, r = false, gone = false;
    u_want.baud_rate = rnd(2) ? 300 << rnd(12) : rnd(5000000);
    u_want.data_bits = uart_word_length_t(dflt ? 3 : rnd(4));
    u_want.parity = uart_parity_t(dflt ? 0 : par[rnd(3)]);
    u_want.stop_bits = uart_stop_bits_t(dflt ? 1 : 1 + rnd(3));
    u_want.flow_ctrl = uart_hw_flowcontrol_t(dflt ? 0 : rnd(4));
    note("UART %d rx %d tx %d baud %d data %d parity %d stop %d flow %d%s", u_port, u_rx, u_tx, u_want.baud_rate, u_want.data_bits, u_want.parity, u_want.stop_bits, u_want.flow_ctrl, u_there ? ", already installed" : "");
    try
    {
        r = dflt ? U::init(u_port, u_rx, u_tx, u_want.baud_rate)
                 : U::init(u_port, u_rx, u_tx, u_want.baud_rate, U::DataBits(u_want.data_bits), U::ParityCheck(u_want.parity), U::StopBits(u_want.stop_bits), U::FlowControl(u_want.flow_ctrl));
    }
    catch (Aborted) { gone = true; }
    if (!gone && r == failed) fail("reports %d", r);
    if (r && !u_there && (u_cfg != 1 || u_pins != 1 || u_inst != 1)) fail("configured %d times, wired %d times, installed %d times", u_cfg, u_pins, u_inst);
#endif
}
static void h05()
{
    uint32_t n = rnd(3) ? rnd(3) ? rnd(30) : rnd(3000) : uint32_t(interesting());
    int op = rnd(5);
    uint64_t t = T;
    gap = rnd(2) ? rnd(5000) : n;
    note("%s(%u), clock %llu us", op == 0 ? "delay" : op == 1 ? "delayMicroseconds" : op == 2 ? "light sleep" : "ticks", n, (unsigned long long)T);
    if (op == 0) { embedded::delay(n); if (T - t < n * 1000ull) fail("waits %llu us", (unsigned long long)(T - t)); }
    else if (op == 1) { gap = n / 4 + 1; embedded::delayMicroseconds(n); if (T - t < n) fail("waits %llu us", (unsigned long long)(T - t)); }
    else if (op == 3) { gap = 0; uint32_t r = embedded::getMillisecondTicks(); if (r != uint32_t(T / 1000)) fail("reports %u ms", r); }
#ifdef ESP
    else if (op == 2)
    {
        gap = rnd(2) ? 1000 : n * 100ull;
        embedded::ligntSleep(n);
        if (T / 1000 - t / 1000 < n) fail("sleeps %llu us", (unsigned long long)(T - t));
    }
    else { slept = 0; embedded::deepSleep(n); if (slept != 1 || armed != n * 1000ull) fail("deep sleep for %llu us", (unsigned long long)armed); }
#endif
}
static void s01()
{
    static PacketUart::UartDevice dev(1);
    PacketUart u(dev);
    size_t cap = rnd(20) ? 1 + rnd(12) : 60000 + rnd(5536);
    std::vector<char> b(cap);
    b.shrink_to_fit();
    SerialOut o(MemoryView<char>(b.data(), cap), u);
    std::string text, all;
    note("capacity %zu:", cap);
#ifdef ARD
    accept_ = ~size_t(0);
#else
    wres = 0;
#endif
    for (int k = rnd(12); k; --k)
    {
        switch (rnd(5))
        {
        case 0: note(" end"); o << SerialOut::end {}; all += text; text.clear(); break;
        case 1: note(" endl"); o << SerialOut::endl {}; all += text + "\n"; text.clear(); break;
        case 2:
        {
            static char rb[4096];
            BufferedOut ref(MemoryView<char>(rb, sizeof rb));
            uint64_t u = interesting();
            int op = rnd(9);
            uint8_t raw[5];
            for (auto& x : raw) x = rnd();
            size_t rl = rnd(6);
            float f = rnd(3) ? (int64_t(rnd()) >> rnd(60)) / 8.f : 0.1f * rnd(1000);
            auto put = [&](auto& out)
            {
                switch (op)
                {
                case 0: out << int(u); break;
                case 1: out << unsigned(u); break;
                case 2: out << long(u); break;
                case 3: out << (unsigned long)u; break;
                case 4: out << (long long)u; break;
                case 5: out << (unsigned long long)u; break;
                case 6: out << f; break;
                case 7: out << (unsigned char)u; break;
                default: out << ConstBytesView(raw, rl);
                }
            };
            put(ref);
            std::string s(rb, ref.size());
            if (text.size() + s.size() > cap) break;
            note(" value of type %d", op);
            put(o);
            text += s;
            break;
        }
        default:
        {
            size_t l = rnd(3) ? rnd(8) : cap - text.size();
            if (text.size() + l > cap) l = cap - text.size();
            std::string s;
            for (size_t i = 0; i < l; ++i) s += char('a' + rnd(26));
            note(" %zu characters", l);
            o << s.c_str();
            text += s;
        }
        }
        if (std::string(sentv.begin(), sentv.end()) != all) fail("transmitted %zu bytes, %zu expected (or others)", sentv.size(), all.size());
    }
}
static void one(const std::string& p)
{
    reset();
    if (p == "H01") h01();
    else if (p == "H02") h02();
    else if (p == "H03") h03();
    else if (p == "H04") h04();
    else if (p == "H05") h05();
    else if (p == "H06") h06();
    else s01();
}
int main(int argc, char** argv) { return search(argc, argv, one); }
