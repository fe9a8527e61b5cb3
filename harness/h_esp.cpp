// Harness: the real ESP-IDF back end; ESP-IDF and FreeRTOS are given by contracts.
#include <array>
#include <cstddef>
#include <cstdint>
#include <new>
#include <algorithm>
#include <string_view>
#include "esp32-esp-idf/AnalogPin.cpp"
#include "esp32-esp-idf/Delays.cpp"
#include "esp32-esp-idf/GpioDigitalPin.cpp"
#include "esp32-esp-idf/I2CBus.cpp"
#include "esp32-esp-idf/I2CDevice.cpp"
#include "esp32-esp-idf/PacketUart.cpp"
#include "esp32-esp-idf/SerialOut.cpp"
#include "esp32-esp-idf/SimpleUartDevice.cpp"
#include "esp32-esp-idf/SleepFunctions.h"
#include "esp32-esp-idf/SpiBus.cpp"
#include "esp32-esp-idf/SpiDevice.cpp"
#include "h_hw.inc"
extern spi_device_t* g_dev_handle;
extern "C" {
void mk_spibus(void* m, int n) { new (m) SpiBus(n); }
bool w_spi_init(SpiBus* b, GpioPinDefinition* sck, GpioPinDefinition* miso, GpioPinDefinition* mosi, uint32_t f, bool half)
{
    return b->init(*sck, *miso, *mosi, f, half ? SpiBus::DuplexMode::Half : SpiBus::DuplexMode::Full);
}
bool w_spi_release(SpiBus* b) { return b->release(); }
void w_spi_dtor(SpiBus* b) { b->~SpiBus(); }
bool w_spi_transfer(SpiBus* b, const uint8_t* t, uint8_t* r, uint32_t n) { return b->transfer(t, r, n); }
void mk_i2cbus(void* m, int n) { new (m) I2CBus(n); }
bool w_i2c_init(const I2CBus* b, int sda, int scl, uint32_t f, bool psda, bool pscl) { return b->init(sda, scl, f, psda, pscl); }
void w_i2c_reset(const I2CBus* b) { b->resetBus(); }
bool w_i2c_test(const I2CBus* b, uint8_t a) { return b->testAddress(a); }
void w_light(uint32_t n) { embedded::ligntSleep(n); }
void w_deep(uint32_t n) { embedded::deepSleep(n); }
bool w_uart_open(int n, int rx, int tx, int baud, uint8_t bits, uint8_t parity, uint8_t stop, uint8_t flow)
{
    typedef SimpleUartDevice U;
    return U::init(n, rx, tx, baud, U::DataBits(bits), U::ParityCheck(parity), U::StopBits(stop), U::FlowControl(flow));
}
bool w_uart_open0(int n, int rx, int tx, int baud) { return SimpleUartDevice::init(n, rx, tx, baud); }
}
// what the contracts look at in the structures handed to ESP-IDF
extern "C" {
uint64_t t_len(const spi_transaction_t* t) { return t->length; }
uint64_t t_rxlen(const spi_transaction_t* t) { return t->rxlength; }
const void* t_tx(const spi_transaction_t* t) { return t->tx_buffer; }
void* t_rx(const spi_transaction_t* t) { return t->rx_buffer; }
uint32_t t_flags(const spi_transaction_t* t) { return t->flags; }
int b_mosi(const spi_bus_config_t* c) { return c->mosi_io_num; }
int b_miso(const spi_bus_config_t* c) { return c->miso_io_num; }
int b_sck(const spi_bus_config_t* c) { return c->sclk_io_num; }
int b_max(const spi_bus_config_t* c) { return c->max_transfer_sz; }
int d_clock(const spi_device_interface_config_t* c) { return c->clock_speed_hz; }
int d_mode(const spi_device_interface_config_t* c) { return c->mode; }
int d_cs(const spi_device_interface_config_t* c) { return c->spics_io_num; }
uint32_t d_flags(const spi_device_interface_config_t* c) { return c->flags; }
uint64_t g_mask(const gpio_config_t* c) { return c->pin_bit_mask; }
int g_mode(const gpio_config_t* c) { return c->mode; }
int g_up(const gpio_config_t* c) { return c->pull_up_en; }
int g_down(const gpio_config_t* c) { return c->pull_down_en; }
int i_mode(const i2c_config_t* c) { return c->mode; }
int i_sda(const i2c_config_t* c) { return c->sda_io_num; }
int i_scl(const i2c_config_t* c) { return c->scl_io_num; }
bool i_psda(const i2c_config_t* c) { return c->sda_pullup_en; }
bool i_pscl(const i2c_config_t* c) { return c->scl_pullup_en; }
uint32_t i_freq(const i2c_config_t* c) { return c->master.clk_speed; }
int u_baud(const uart_config_t* c) { return c->baud_rate; }
int u_bits(const uart_config_t* c) { return c->data_bits; }
int u_parity(const uart_config_t* c) { return c->parity; }
int u_stop(const uart_config_t* c) { return c->stop_bits; }
int u_flow(const uart_config_t* c) { return c->flow_ctrl; }
int u_thresh(const uart_config_t* c) { return c->rx_flow_ctrl_thresh; }
int a_unit(const adc_oneshot_unit_init_cfg_t* c) { return c->unit_id; }
int k_adc(int unit, int ch) { return adc_channel_io_map[unit][ch]; }
}
